"""Fields of the parts of harness/record.cc: cells, lists, maps, multimaps, bit vectors."""
PARTS = {1: (29, 0, 0, 0, 0), 2: (29, 0, 0, 0, 0), 3: (0, 24, 0, 0, 0), 4: (0, 0, 8, 8, 2)}
NAMES = ("Cells", "Lists", "Maps", "Multis", "Bits")
CELL = ["set", "set_move", "reset", "copy", "self", "rebuild", "move", "reload", "fresh"]
OPS = {1: CELL, 2: CELL,
       3: ["push", "push_move", "pop", "insert", "erase", "erase_range", "write", "resize", "reserve", "clear", "reset", "copy", "self", "rebuild", "assign", "move", "reload"],
       4: ["put", "put_index", "add", "erase", "erase_it", "clear", "rehash", "copy", "rebuild", "move", "grow", "write", "resize", "zero", "one", "reload"]}


def fields(part):
    return dict(zip(NAMES, PARTS[part]))
