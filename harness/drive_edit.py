"""Edits of the plain description of a document (as Edit in spec/Layout.tla)."""


def edit(doc, op):
    k = op["op"]
    nd = doc["nodes"][op["n"] - 1]
    if k == "set":
        nd["st"][op["p"]] = op["v"]
    elif k == "del":
        nd["st"].pop(op["p"], None)
    elif k == "intr":
        nd["intr"] = op["v"]
    if k in ("detach", "move"):
        doc["nodes"][nd["par"] - 1]["kids"].remove(op["n"])
        nd["par"] = 0
    if k in ("attach", "move"):
        doc["nodes"][op["par"] - 1]["kids"].insert(op["at"] - 1, op["n"])
        nd["par"] = op["par"]
