------------------------------ MODULE SitesMC -------------------------------
EXTENDS SitesImpl
L1 == << <<1, "1">> >>
L2 == << <<1, "1">>, <<2, "2">> >>
L3 == << <<0, "1">>, <<1, "1">>, <<2, "2">> >>
L4 == << <<1, "1">>, <<3, "3">>, <<4, "4">> >>
MCEnforce == {"C05", "C06", "C08", "C09", "C10", "C11"}
=============================================================================
