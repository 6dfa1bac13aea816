from . import design_cases, exports

INV = ["AlwaysDone", "NodesOnce", "ArraysAsArrays", "NoKeywords"]
TOOLS = ["ddsidl", "apigear"]




def run(chk):
    for fam, cap in (("types", 500), ("structs", 128), ("flags", 300), ("names", 300)):
        design_cases(chk, "MCSchema", INV, cap=cap, consts={"Fam": f'"{fam}"', "Tools": '{"ddsidl", "apigear"}'})
    exports(chk, 600, 12000, "interfaces", TOOLS, types=0.5, p_instances=0.3, p_ext=0.1, words="odd", values=True, overlays=(0, 1),
            goodnames=True, p_delete=0.1, p_struct_ref=0.6)
