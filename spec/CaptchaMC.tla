----------------------------- MODULE CaptchaMC ------------------------------
EXTENDS CaptchaImpl
MCDur == [s \in Sites |-> IF s = "a" THEN 1 ELSE 2]
MCEnforce == {"C01", "C02", "C03", "C04", "C08", "C19"}
=============================================================================
