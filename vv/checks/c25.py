from . import design_cases, exports

INV = ["AlwaysDone", "NodesOnce", "ArraysAsArrays"]


def run(chk):
    for fam, cap in (("names", 500), ("types", 300), ("flags", 150)):
        design_cases(chk, "MCSchema", INV, cap=cap, consts={"Fam": f'"{fam}"', "Tools": '{"graphql"}'})
    exports(chk, 600, 12000, "graphql", ["graphql"], types=0, p_instances=0.3, p_ext=0.1, words="odd", overlays=(0, 1),
            p_badname=0.03, p_delete=0.1)
