from . import design, randoms


def run(chk):
    design(chk, "MCStrict", ["OptionFree", "NamesRejected", "DeletedIgnored", "AttrsRejected", "OnlyTheseReject",
                             "TypesRejectUnknown"])
    randoms(chk, 350, 6000, "strictness", options=True, p_badname=0.06, p_ext=0.12, p_delete=0.3, types=0.3,
            p_instances=0.3, nodes=7, p_bad=0.1, goodnames=True)
