from . import design_cases, exports

INV = ["AlwaysDone", "NodesOnce", "ArraysAsArrays", "Satisfiable"]
TOOLS = ["franca", "tree", "jsonschema"]


def run(chk):
    for fam, tools, cap in (("types", TOOLS, 400), ("structs", TOOLS[1:], 100), ("flags", TOOLS, 350), ("names", TOOLS, 150)):
        design_cases(chk, "MCSchema", INV, cap=cap, consts={"Fam": f'"{fam}"', "Tools": "{" + ", ".join(f'"{t}"' for t in tools) + "}"})
    for label, tools, words, n in (("text formats", ["franca", "jsonschema"], "odd", 450), ("drawings", ["tree"], "line", 250)):
        exports(chk, n, n * 25, label, tools, types=0.4, p_instances=0.3, p_ext=0.3, p_null=0.2, words=words, overlays=(0, 1),
                p_special=0.2, p_delete=0.1)
