---------------------------- MODULE MCThreadPool ----------------------------
EXTENDS ThreadPoolImpl
Script12 == <<<<1, 2>>, <<3>>>>
Script22 == <<<<1, 2>>, <<3>>>>
Script11 == <<<<1>>, <<2>>>>
Script33 == <<<<1, 2>>, <<3, 4>>>>
=============================================================================
