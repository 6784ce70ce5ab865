#include "ngx_config.h"
