-------------------------------- MODULE MCFiles -------------------------------
EXTENDS FilesGen
==============================================================================
