from .. import textprog

RULE = "a generated unit system and eight texts over its symbols, well-formed or with one fault, read as the dimension they have or another; non-trivial if some quantity has a dimension"


def run(rep):
    textprog.run(rep, "read", 300, 4000)


def replay(f):
    return textprog.replay(f, "read")
