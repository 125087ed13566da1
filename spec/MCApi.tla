------------------------------- MODULE MCApi --------------------------------
EXTENDS ApiGen
SmallWorld == << <<"OSV-A", "OSV-B">>, <<>>, <<"OSV-B", "OSV-C">>, <<"OSV-A">> >>
=============================================================================
