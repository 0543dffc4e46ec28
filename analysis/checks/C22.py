from checks._fam import make
SPEC, run = make("for every kind of extension argument and output column, in every position of extension relations, extension tables, enhancements and optimizations, through opaque handlers registered by the crate's own registration: "
                 "the arguments the reading handler receives are exactly those the writing handler returned, addenda stay on their relation in their order, and extensions nobody registered are reported", ["payloads"], "trip silent panic mark")
