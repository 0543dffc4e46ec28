from checks._fam import make
SPEC, run = make("for every pattern of declarations (kinds, anchors, URNs, equal names, signatures, dangling references) and every reference to them: the text reads back with each reference resolving to the same declaration, "
                 "or an issue is reported", ["declarations"], "trip silent panic mark")
