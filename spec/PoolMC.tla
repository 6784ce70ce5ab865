------------------------------- MODULE PoolMC -------------------------------
EXTENDS PoolImpl
BatchesDef == <<3, 0, 2>>
=============================================================================
