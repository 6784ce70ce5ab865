------------------------------- MODULE Tables -------------------------------
(* Fixed numbers of the stream format, as they were when it was published.   *)
EXTENDS Integers, Sequences
NaturalOrder == <<0,1,8,16,9,2,3,10,17,24,32,25,18,11,4,5,12,19,26,33,
  40,48,41,34,27,20,13,6,7,14,21,28,35,42,49,56,57,50,43,36,
  29,22,15,23,30,37,44,51,58,59,52,45,38,31,39,46,53,60,61,54,
  47,55,62,63>>
QuantBase == <<
 <<16,11,10,16,24,40,51,61,12,12,14,19,26,58,60,55,14,13,16,24,40,57,69,56,
  14,17,22,29,51,87,80,62,18,22,37,56,68,109,103,77,24,35,55,64,81,104,113,92,
  49,64,78,87,103,121,120,101,72,92,95,98,112,100,103,99>>,
 <<17,18,24,47,99,99,99,99,18,21,26,66,99,99,99,99,24,26,56,99,99,99,99,99,
  47,66,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,
  99,99,99,99,99,99,99,99,99,99,99,99,99,99,99,99>>
>>
StockQuantLuma == <<
 <<3,2,2,3,5,8,10,12,2,2,3,4,5,12,12,11,3,3,3,5,8,11,14,11,
  3,3,4,6,10,17,16,12,4,4,7,11,14,22,21,15,5,7,11,13,16,21,23,18,
  10,13,16,17,21,24,24,20,14,18,19,20,22,20,21,20>>,
 <<8,6,5,8,12,20,26,31,6,6,7,10,13,29,30,28,7,7,8,12,20,29,35,28,
  7,9,11,15,26,44,40,31,9,11,19,28,34,55,52,39,12,18,28,32,41,52,57,46,
  25,32,39,44,52,61,60,51,36,46,48,49,56,50,52,50>>,
 <<6,4,4,6,10,16,20,24,5,5,6,8,10,23,24,22,6,5,6,10,16,23,28,22,
  6,7,9,12,20,35,32,25,7,9,15,22,27,44,41,31,10,14,22,26,32,42,45,37,
  20,26,31,35,41,48,48,40,29,37,38,39,45,40,41,40>>,
 <<5,3,3,5,7,12,15,18,4,4,4,6,8,17,18,17,4,4,5,7,12,17,21,17,
  4,5,7,9,15,26,24,19,5,7,11,17,20,33,31,23,7,11,17,19,24,31,34,28,
  15,19,23,26,31,36,36,30,22,28,29,29,34,30,31,30>>,
 <<1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,
  1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,
  1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1>>,
 <<2,1,1,2,2,4,5,6,1,1,1,2,3,6,6,6,1,1,2,2,4,6,7,6,
  1,2,2,3,5,9,8,6,2,2,4,6,7,11,10,8,2,4,6,6,8,10,11,9,
  5,6,8,9,10,12,12,10,7,9,10,10,11,10,10,10>>,
 <<1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,2,
  1,1,1,1,1,1,2,2,1,1,1,1,1,2,2,3,1,1,1,1,2,2,3,3,
  1,1,1,2,2,3,3,3,1,1,2,2,3,3,3,3>>,
 <<10,7,6,10,14,24,31,37,7,7,8,11,16,35,36,33,8,8,10,14,24,34,41,34,
  8,10,13,17,31,52,48,37,11,13,22,34,41,65,62,46,14,21,33,38,49,62,68,55,
  29,38,47,52,62,73,72,61,43,55,57,59,67,60,62,59>>
>>
StockQuantChroma == <<
 <<9,9,9,12,11,12,24,13,13,24,50,33,28,33,50,50,50,50,50,50,50,50,50,50,
  50,50,50,50,50,50,50,50,50,50,50,50,50,50,50,50,50,50,50,50,50,50,50,50,
  50,50,50,50,50,50,50,50,50,50,50,50,50,50,50,50>>,
 <<3,4,5,9,20,20,20,20,4,4,5,13,20,20,20,20,5,5,11,20,20,20,20,20,
  9,13,20,20,20,20,20,20,20,20,20,20,20,20,20,20,20,20,20,20,20,20,20,20,
  20,20,20,20,20,20,20,20,20,20,20,20,20,20,20,20>>,
 <<9,9,12,24,50,50,50,50,9,11,13,33,50,50,50,50,12,13,28,50,50,50,50,50,
  24,33,50,50,50,50,50,50,50,50,50,50,50,50,50,50,50,50,50,50,50,50,50,50,
  50,50,50,50,50,50,50,50,50,50,50,50,50,50,50,50>>,
 <<5,5,7,14,30,30,30,30,5,6,8,20,30,30,30,30,7,8,17,30,30,30,30,30,
  14,20,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30,
  30,30,30,30,30,30,30,30,30,30,30,30,30,30,30,30>>,
 <<7,7,10,19,40,40,40,40,7,8,10,26,40,40,40,40,10,10,22,40,40,40,40,40,
  19,26,40,40,40,40,40,40,40,40,40,40,40,40,40,40,40,40,40,40,40,40,40,40,
  40,40,40,40,40,40,40,40,40,40,40,40,40,40,40,40>>,
 <<1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,
  1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,
  1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1>>,
 <<2,2,2,5,10,10,10,10,2,2,3,7,10,10,10,10,2,3,6,10,10,10,10,10,
  5,7,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,
  10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10>>,
 <<10,11,14,28,59,59,59,59,11,13,16,40,59,59,59,59,14,16,34,59,59,59,59,59,
  28,40,59,59,59,59,59,59,59,59,59,59,59,59,59,59,59,59,59,59,59,59,59,59,
  59,59,59,59,59,59,59,59,59,59,59,59,59,59,59,59>>
>>
StockDcCounts == <<
 <<0,3,1,1,1,1,1,1,1,1,2,0,0,0,0,0>>,
 <<0,1,5,1,1,1,1,1,2,0,0,0,0,0,0,0>>
>>
StockDcValues == <<
 <<0,1,2,3,4,5,6,7,8,9,10,11,256>>,
 <<0,1,2,3,4,5,6,7,8,9,10,11,256>>
>>
StockAcCounts == <<
 <<0,2,1,3,3,2,4,3,5,5,4,4,0,0,1,126>>,
 <<0,2,1,2,4,4,3,4,7,5,4,4,0,1,2,120>>
>>
StockAcValues == <<
 <<1,2,3,0,4,17,5,18,33,49,65,6,19,81,97,7,34,113,20,50,129,145,161,8,
  35,66,177,193,21,82,209,240,36,51,98,114,130,9,10,22,23,24,25,26,37,38,39,40,
  41,42,52,53,54,55,56,57,58,67,68,69,70,71,72,73,74,83,84,85,86,87,88,89,
  90,99,100,101,102,103,104,105,106,115,116,117,118,119,120,121,122,131,132,133,134,135,136,137,
  138,146,147,148,149,150,151,152,153,154,162,163,164,165,166,167,168,169,170,178,179,180,181,182,
  183,184,185,186,194,195,196,197,198,199,200,201,202,210,211,212,213,214,215,216,217,218,225,226,
  227,228,229,230,231,232,233,234,241,242,243,244,245,246,247,248,249,250,256>>,
 <<0,1,2,3,17,4,5,33,49,6,18,65,81,7,97,113,19,34,50,129,8,20,66,145,
  161,177,193,9,35,51,82,240,21,98,114,209,10,22,36,52,225,37,241,23,24,25,26,38,
  39,40,41,42,53,54,55,56,57,58,67,68,69,70,71,72,73,74,83,84,85,86,87,88,
  89,90,99,100,101,102,103,104,105,106,115,116,117,118,119,120,121,122,130,131,132,133,134,135,
  136,137,138,146,147,148,149,150,151,152,153,154,162,163,164,165,166,167,168,169,170,178,179,180,
  181,182,183,184,185,186,194,195,196,197,198,199,200,201,202,210,211,212,213,214,215,216,217,218,
  226,227,228,229,230,231,232,233,234,242,243,244,245,246,247,248,249,250,256>>
>>
DefaultDcValues == <<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15>>
DefaultAcValues == <<1,0,2,3,17,4,5,33,18,49,65,6,81,19,97,7,34,113,50,129,
  20,145,161,8,35,66,177,193,21,82,209,240,36,51,98,114,9,130,10,22,
  52,225,23,37,241,24,25,26,38,39,40,41,42,53,54,55,56,57,58,67,
  68,69,70,71,72,73,74,83,84,85,86,87,88,89,90,99,100,101,102,103,
  104,105,106,115,116,117,118,119,120,121,122,131,132,133,134,135,136,137,138,146,
  147,148,149,150,151,152,153,154,162,163,164,165,166,167,168,169,170,178,179,180,
  181,182,183,184,185,186,194,195,196,197,198,199,200,201,202,210,211,212,213,214,
  215,216,217,218,226,227,228,229,230,231,232,233,234,242,243,244,245,246,247,248,
  249,250,16,32,48,64,80,96,112,128,144,160,176,192,208,11,12,13,14,15,
  27,28,29,30,31,43,44,45,46,47,59,60,61,62,63,75,76,77,78,79,
  91,92,93,94,95,107,108,109,110,111,123,124,125,126,127,139,140,141,142,143,
  155,156,157,158,159,171,172,173,174,175,187,188,189,190,191,203,204,205,206,207,
  219,220,221,222,223,224,235,236,237,238,239,251,252,253,254,255>>
NonzeroBuckets == <<0,1,2,3,4,4,5,5,5,6,6,6,6,7,7,7,7,7,7,7,
  7,8,8,8,8,8,8,8,8,8,8,8,9,9,9,9,9,9,9,9,
  9,9,9,9,9,10,10,10,10,10,10,10,10,10,10,10,10,10,10,10,
  10,10,10,10>>
FreqContext == <<
 <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
  0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
  0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>,
 <<0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
  1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,
  1,1,1,1,1,1,1,1,1,1,1,1,1,0,0,0>>,
 <<0,1,1,1,1,1,1,1,1,1,2,2,2,2,2,2,2,2,2,2,2,2,2,2,
  2,2,3,3,3,3,3,3,3,3,3,3,3,3,3,3,3,3,3,3,3,3,3,3,
  3,3,3,3,3,3,3,3,3,3,3,3,3,1,1,1>>,
 <<0,1,1,2,2,2,3,3,3,3,4,4,4,4,4,4,5,5,5,5,5,5,5,5,
  6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,7,7,7,7,7,7,7,7,
  7,7,7,7,7,7,7,7,7,7,7,7,7,2,2,2>>,
 <<0,1,2,3,4,4,5,5,6,6,7,7,8,8,8,8,9,9,9,9,10,10,10,10,
  11,11,11,11,12,12,12,12,13,13,13,13,13,13,13,13,14,14,14,14,14,14,14,14,
  15,15,15,15,15,15,15,15,15,15,15,15,15,15,15,15>>,
 <<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,16,17,17,18,18,19,19,
  20,20,21,21,22,22,23,23,24,24,24,24,25,25,25,25,26,26,26,26,27,27,27,27,
  28,28,28,28,29,29,29,29,30,30,30,30,31,31,31,31>>,
 <<0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16,17,18,19,20,21,22,23,
  24,25,26,27,28,29,30,31,32,33,34,35,36,37,38,39,40,41,42,43,44,45,46,47,
  48,49,50,51,52,53,54,55,56,57,58,59,60,61,62,63>>
>>
NumNonzeroContext == <<
 <<0,1,1,2,2,2,3,3,3,3,4,4,4,4,4,4,5,5,5,5,5,5,5,5,
  6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,6,7,7,7,7,7,7,7,7,
  7,7,7,7,7,7,7,7,7,7,7,7,7,7,7,7>>,
 <<0,2,2,4,4,4,6,6,6,6,8,8,8,8,8,8,10,10,10,10,10,10,10,10,
  12,12,12,12,12,12,12,12,12,12,12,12,12,12,12,12,14,14,14,14,14,14,14,14,
  14,14,14,14,14,14,14,14,14,14,14,14,14,14,14,14>>,
 <<0,4,4,8,8,8,12,12,12,12,16,16,16,16,16,16,20,20,20,20,20,20,20,20,
  24,24,24,24,24,24,24,24,24,24,24,24,24,24,24,24,28,28,28,28,28,28,28,28,
  28,28,28,28,28,28,28,28,28,28,28,28,28,28,28,28>>,
 <<0,8,8,16,16,16,24,24,24,24,32,32,32,32,32,32,40,40,40,40,40,40,40,40,
  48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,48,55,55,55,55,55,55,55,55,
  55,55,55,55,55,55,55,55,55,55,55,55,55,55,55,55>>,
 <<0,16,16,32,32,32,48,48,48,48,64,64,64,64,64,64,80,80,80,80,80,80,80,80,
  95,95,95,95,95,95,95,95,95,95,95,95,95,95,95,95,109,109,109,109,109,109,109,109,
  109,109,109,109,109,109,109,109,109,109,109,109,109,109,109,109>>,
 <<0,32,32,64,64,64,96,96,96,96,127,127,127,127,127,127,157,157,157,157,157,157,157,157,
  185,185,185,185,185,185,185,185,185,185,185,185,185,185,185,185,211,211,211,211,211,211,211,211,
  211,211,211,211,211,211,211,211,211,211,211,211,211,211,211,211>>,
 <<0,64,64,127,127,127,188,188,188,188,246,246,246,246,246,246,300,300,300,300,300,300,300,300,
  348,348,348,348,348,348,348,348,348,348,348,348,348,348,348,348,388,388,388,388,388,388,388,388,
  388,388,388,388,388,388,388,388,388,388,388,388,388,388,388,388>>
>>
NumNonzeroSkip == <<8,15,31,61,120,231,412>>
ContextAlgorithm == <<
 <<0,1,1,1,1,0,0,0,2,3,1,1,1,0,0,0,2,2,0,0,0,0,0,0,
  2,2,0,0,0,0,0,0,2,2,0,0,0,0,0,0,0,0,0,0,0,0,0,0,
  0,0,0,0,0,0,0,0,0,0,0,0,0,0,0,0>>,
 <<0,1,1,1,1,1,1,1,2,0,0,0,0,0,0,0,2,0,0,0,0,0,0,0,
  2,0,0,0,0,0,0,0,2,0,0,0,0,0,0,0,2,0,0,0,0,0,0,0,
  2,0,0,0,0,0,0,0,2,0,0,0,0,0,0,0>>
>>
InitZero == <<228,216,216,195,192,189,182,184,179,176,171,168,166,159,156,151,151,150,150,146,
  144,138,138,137,135,131,127,126,124,123,124,123,122,121,118,117,114,115,116,116,
  115,115,114,111,111,111,112,111,110,110,110,111,111,114,110,111,112,113,116,120,
  126,131,147,160>>
InitNonzero == <<
 <<251,252,117,249,161,136,83,238,184,126,137,129,140,119,70,213,160,175,174,130,166,134,122,125,
  131,144,136,133,139,123,79,216,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,
  128,128,128,128,128,128,128,128,128,128,128,128,128,128,128>>,
 <<254,252,174,232,189,155,122,177,204,173,146,149,141,133,103,109,167,187,168,142,154,147,125,139,
  144,138,138,153,141,133,90,121,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,
  128,128,128,128,128,128,128,128,128,128,128,128,128,128,128>>,
 <<251,240,197,176,184,177,114,89,194,165,153,161,158,136,92,95,123,171,160,140,148,136,129,139,
  145,136,143,134,138,124,92,154,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,
  128,128,128,128,128,128,128,128,128,128,128,128,128,128,128>>,
 <<247,220,201,110,194,176,147,59,175,171,156,157,152,146,115,114,88,151,164,141,153,135,141,131,
  146,139,140,145,138,137,112,184,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,
  128,128,128,128,128,128,128,128,128,128,128,128,128,128,128>>,
 <<238,179,203,63,194,173,149,71,139,169,154,159,150,146,117,143,78,122,152,137,149,138,138,133,
  134,142,142,142,148,128,118,199,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,
  128,128,128,128,128,128,128,128,128,128,128,128,128,128,128>>,
 <<227,127,200,44,192,170,148,100,102,161,156,153,148,149,124,160,88,101,134,132,149,145,134,134,
  136,141,138,142,144,137,116,208,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,
  128,128,128,128,128,128,128,128,128,128,128,128,128,128,128>>,
 <<214,86,195,44,187,163,148,126,81,147,156,152,150,144,121,172,96,95,117,122,145,152,136,133,
  135,135,131,142,141,135,114,217,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,
  128,128,128,128,128,128,128,128,128,128,128,128,128,128,128>>,
 <<198,56,191,54,171,162,147,144,74,128,152,149,150,142,119,177,101,100,106,111,135,154,136,137,
  136,132,133,142,144,130,117,222,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,
  128,128,128,128,128,128,128,128,128,128,128,128,128,128,128>>,
 <<176,40,189,73,147,159,148,152,79,106,147,149,151,139,123,188,108,110,106,97,125,151,137,138,
  135,135,134,136,140,131,116,221,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,
  128,128,128,128,128,128,128,128,128,128,128,128,128,128,128>>,
 <<148,33,185,88,117,158,145,163,95,91,137,146,150,140,120,197,115,116,114,92,114,144,130,133,
  132,133,129,140,138,130,111,224,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,
  128,128,128,128,128,128,128,128,128,128,128,128,128,128,128>>,
 <<117,31,180,104,93,150,143,166,99,85,124,139,148,142,118,201,105,120,120,90,107,135,127,130,
  131,131,132,140,142,133,114,229,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,
  128,128,128,128,128,128,128,128,128,128,128,128,128,128,128>>,
 <<87,35,170,110,78,141,144,176,106,90,112,132,143,138,119,204,111,121,125,90,105,131,124,122,
  129,128,129,137,138,133,114,227,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,
  128,128,128,128,128,128,128,128,128,128,128,128,128,128,128>>,
 <<63,42,159,123,73,127,142,191,105,91,105,123,139,137,120,209,117,110,122,98,110,125,115,123,
  122,126,128,134,141,129,113,229,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,
  128,128,128,128,128,128,128,128,128,128,128,128,128,128,128>>,
 <<45,53,146,135,71,114,138,193,100,98,98,113,133,135,118,222,113,111,139,103,107,126,111,119,
  121,122,127,135,141,128,114,242,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,
  128,128,128,128,128,128,128,128,128,128,128,128,128,128,128>>,
 <<33,60,132,138,75,100,134,203,112,99,98,105,126,131,115,229,107,93,121,106,108,122,106,109,
  114,116,127,133,143,128,110,242,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,
  128,128,128,128,128,128,128,128,128,128,128,128,128,128,128>>,
 <<24,70,118,134,76,87,130,201,110,96,99,97,119,130,111,229,97,104,125,102,112,125,101,109,
  113,114,125,129,142,127,112,241,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,
  128,128,128,128,128,128,128,128,128,128,128,128,128,128,128>>,
 <<17,65,100,121,80,75,124,174,117,100,94,93,114,128,110,216,103,94,113,122,118,126,113,108,
  105,108,122,128,141,125,113,238,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,
  128,128,128,128,128,128,128,128,128,128,128,128,128,128,128>>,
 <<12,70,82,132,78,65,118,155,136,103,97,89,106,124,111,215,115,123,129,99,104,127,110,108,
  101,109,118,126,136,123,110,233,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,
  128,128,128,128,128,128,128,128,128,128,128,128,128,128,128>>,
 <<8,66,61,117,91,59,108,195,101,112,99,99,99,116,106,230,127,99,144,101,118,137,117,111,
  106,104,116,121,134,122,110,223,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,
  128,128,128,128,128,128,128,128,128,128,128,128,128,128,128>>,
 <<6,78,42,146,101,54,94,201,116,102,110,94,92,108,103,214,108,111,127,102,121,132,120,121,
  95,98,110,121,129,117,107,235,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,
  128,128,128,128,128,128,128,128,128,128,128,128,128,128,128>>,
 <<5,93,29,145,102,52,77,216,108,115,108,102,89,97,94,229,89,103,139,120,103,151,102,100,
  97,96,99,111,125,116,104,242,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,
  128,128,128,128,128,128,128,128,128,128,128,128,128,128,128>>,
 <<4,105,21,145,100,54,64,217,100,122,128,87,88,91,87,230,112,80,148,95,146,123,96,140,
  90,91,98,106,122,111,100,249,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,
  128,128,128,128,128,128,128,128,128,128,128,128,128,128,128>>,
 <<4,130,14,142,104,56,51,208,116,135,100,89,82,84,75,239,85,85,122,125,94,144,151,136,
  92,97,104,109,113,110,91,246,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,
  128,128,128,128,128,128,128,128,128,128,128,128,128,128,128>>,
 <<3,126,9,172,105,57,39,219,95,120,118,96,93,75,66,241,102,134,96,156,146,162,130,112,
  82,89,97,101,116,103,82,254,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,
  128,128,128,128,128,128,128,128,128,128,128,128,128,128,128>>,
 <<3,149,7,182,122,54,29,224,103,100,113,96,90,74,55,250,127,94,118,93,135,160,113,130,
  95,117,106,96,111,97,77,242,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,
  128,128,128,128,128,128,128,128,128,128,128,128,128,128,128>>,
 <<3,150,4,170,138,59,20,229,91,150,107,98,92,68,48,245,113,64,114,111,134,127,102,104,
  85,118,103,107,102,91,72,245,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,
  128,128,128,128,128,128,128,128,128,128,128,128,128,128,128>>,
 <<3,171,3,165,137,62,14,211,96,127,132,121,95,62,37,248,102,57,144,85,127,191,102,97,
  127,104,91,102,107,81,64,254,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,
  128,128,128,128,128,128,128,128,128,128,128,128,128,128,128>>,
 <<2,166,2,196,122,65,10,243,102,93,117,92,96,63,29,251,169,159,149,96,91,139,157,40,
  100,89,120,92,109,79,58,247,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,
  128,128,128,128,128,128,128,128,128,128,128,128,128,128,128>>,
 <<2,176,2,189,118,48,7,219,68,43,109,96,129,75,19,254,2,3,185,6,102,127,127,127,
  1,131,83,99,107,80,45,254,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,
  128,128,128,128,128,128,128,128,128,128,128,128,128,128,128>>,
 <<1,205,2,208,64,89,4,223,29,169,29,123,118,76,11,240,202,243,65,6,12,243,96,55,
  102,102,114,102,107,74,31,247,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,
  128,128,128,128,128,128,128,128,128,128,128,128,128,128,128>>,
 <<1,216,1,214,127,94,2,234,145,3,127,106,155,80,4,247,4,65,86,127,127,127,127,102,
  127,143,143,108,113,80,16,216,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,
  128,128,128,128,128,128,128,128,128,128,128,128,128,128,128>>,
 <<2,199,1,222,93,94,1,232,2,65,74,139,201,48,2,254,169,127,52,243,251,249,102,86,
  202,153,65,65,146,69,8,238,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,128,
  128,128,128,128,128,128,128,128,128,128,128,128,128,128,128>>
>>
=============================================================================
