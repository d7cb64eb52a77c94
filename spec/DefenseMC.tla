----------------------------- MODULE DefenseMC ------------------------------
EXTENDS DefenseImpl
MCEnforce == {"C07"}
=============================================================================
