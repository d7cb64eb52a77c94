------------------------------ MODULE RedisMC -------------------------------
EXTENDS RedisImpl
MCEnforce == {"C16", "C17", "C18", "C20"}
MCKind == [c \in Clients |-> IF c \in {"m", "m2"} THEN "registry" ELSE "cache"]
\* names whose concatenations with a separator in between may coincide
N1 == {<<"a">>}
N2 == {<<"a">>, <<"b">>}
N3 == {<<"a">>, <<"a", ":", "a">>}
OneMod == {<<"mcaptcha_cache">>}
NoMiss == {<<>>}
AllMods == {<<>>, <<"x">>, <<"mcaptcha_cache">>, <<"x", "mcaptcha_cache">>, <<"mcaptcha_cache", "x">>, <<"x", "y">>, <<"x", "y", "mcaptcha_cache">>}
AllMiss == {<<>>, <<"A">>, <<"B">>, <<"A", "B">>}
=============================================================================
