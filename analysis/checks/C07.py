from checks._fam import make
SPEC, run = make("for every position of a plan that holds a string, and every string class (all printable characters alone, inside, before and after a name; control and non-ASCII characters; every string "
                 "constant of the program and of the grammar; the classes of all identifiers and of all characters), the text reads back with the same string in the same place", ["names"], "trip silent panic")
