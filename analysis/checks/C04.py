from checks._fam import make
SPEC, run = make("for every literal kind, boundary value, value class, nullability and position, the text reads back as the same literal or an issue is reported", ["literals"], "trip silent panic")
