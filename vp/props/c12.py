from .. import textprog

RULE = "a generated unit system and eight quantities of generated dimensions, storage types, bit patterns and format options; the text after the number is compared with the units that the program itself reports to have factor one; non-trivial if some quantity has a dimension"


def run(rep):
    textprog.run(rep, "debug", 400, 6000)


def replay(f):
    return textprog.replay(f, "debug")
