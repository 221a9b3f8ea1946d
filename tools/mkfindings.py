"""known_findings.json"""
import json
import subprocess

FIXED = [
    ("P03", "let IGP traffic use", "IGP demands avoided interfaces that are not rsvp_enabled"),
    ("P13", "get_shortest_path returns only", "FlexModel.get_shortest_path returned parallel interfaces that were not of lowest cost"),
    ("P13", "honours include_failed_circuits", "FlexModel.get_all_paths_reservable_bw ignored include_failed_circuits"),
    ("P06", "resignalled LSP path is", "a re-signaled LSP in FlexModel could get a path that is not contiguous or not of lowest cost"),
    ("P10", "IGP shortcuts apply", "IGP shortcuts were applied to the first ECMP path only"),
    ("P08", "do not resignal a fixed", "an LSP with configured bandwidth was signaled again for auto bandwidth"),
    ("P07", "round LSP reservations", "reserved bandwidth of interfaces did not add up to the reservations and validation then failed"),
    ("P09", "setting an LSP's manual_metric", "setting manual_metric had no effect while a configured metric was pending"),
    ("P17", "default object sets", "models made without arguments shared their object sets"),
    ("P15", "reports duplicate interface names", "duplicate interface names on a node passed validation"),
    ("P20", "add_circuit honours failed", "add_circuit ignored failed=True and failed nodes"),
    ("P02", "unfail_node leaves", "unfail_node restored interfaces in a failed SRLG or left others failed"),
    ("P01", "removing an interface from an SRLG", "removing an interface from an SRLG left the two ends of its circuit in different states"),
    ("P01", "added to a failed SRLG fails", "a node or interface added to a failed SRLG stayed up"),
    ("P20", "interfaces added from a list share", "interfaces added from a list had nodes of their own and ignored failed"),
    ("P16", "blank optional columns", "blank optional columns of a model file did not give the defaults"),
    ("P20", "an interface renamed", "an interface renamed with change_interface_name could not be found"),
    ("P14", "traffic_on_lsp is 0", "traffic_on_lsp raised when no parallel LSP is routed"),
    ("P18", "does not mistake hyphenated", "PerformanceModel took hyphenated node names for parallel links"),
    ("P15", "a parallel circuit rejected", "a circuit refused by PerformanceModel.add_circuit stayed in the model"),
    ("P19", "every utilization a color", "utilizations between two ranges had no color in WeatherMap"),
    ("P19", "finds no interfaces for an unrouted", "WeatherMap failed on an unrouted demand"),
    ("P19", "sources and destinations support", "WeatherMap sources and destinations were wrong for hyphenated node names"),
    ("P07", "unfailing an interface that is not failed", "unfailing an interface that is up dropped its reserved bandwidth"),
    ("P11", "an unrouted demand does not keep", "an unrouted demand kept the path_detail of an earlier simulation"),
    ("P19", "selections for nodes with a hyphen", "WeatherMap selections failed for nodes with a hyphen in their name"),
    ("P19", "interface selection when no LSP", "WeatherMap interface selection failed when no LSP was selected"),
    ("P15", "a rejected list of interfaces", "a list of interfaces refused by validation stayed in the model"),
    ("P06", "stay apart when node names", "with hyphens in node names, LSPs and demands of different pairs of nodes fell into one group, "
     "and LSPs were not signaled or used by demands of other nodes"),
    ("P15", "an Interface must connect two different", "add_circuit refused a circuit from a node to itself only after adding its "
     "interfaces, and a list with such an interface could be accepted"),
    ("P15", "Demand or LSP must connect two different", "add_demand and add_rsvp_lsp accepted a source that is the "
     "destination, and then update_simulation failed with ValueError"),
    ("P21", "display_demand_paths shows no paths", "display_demand_paths showed the letters of 'Unrouted' as eight paths"),
]
OPEN = []

if __name__ == "__main__":
    log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], capture_output=True, text=True).stdout
    fixed = []
    for prop, words, what in FIXED:
        h = [x.split()[0] for x in log.splitlines() if words in x and " fix: " in x]
        assert len(h) == 1, (words, h)
        fixed.append("fixed: property=%s %s %s" % (prop, h[0], what))
    json.dump({"open": OPEN, "fixed": fixed}, open("/verif/known_findings.json", "w"), indent=1)
    n = sum(" fix: " in x for x in log.splitlines())
    print(len(OPEN), "open;", len(fixed), "fixed of", n)
