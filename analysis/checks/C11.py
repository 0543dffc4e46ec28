from checks._fam import make
SPEC, run = make("for every place of the text format that holds a number, with a class symbol for all numbers of its legal range, all above and all below: every legal number is accepted and held by the plan as that number, every other is refused", ["numbers", "strs"], "number again")
