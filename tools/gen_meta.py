"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MG = "src/ucis/merge/db_merger.py"
RB = "src/ucis/report/coverage_report_builder.py"
MEM = "src/ucis/mem"

PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, na=None, note=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                      mech=mech, na=na, note=note))


P("P01", "Merging sums the count of every bin and loses or invents none",
  "After merging any list of databases, every bin of every coverpoint and cross (of covergroup types and of covergroup "
  "instances) that occurs in at least one source occurs exactly once in the result, and no other bin occurs. Its count "
  "is the sum of the counts of the bins with the same hierarchical name and bin kind (regular, ignore, illegal) in all "
  "the sources.",
  ["inputs"], "all source databases, names, kinds, presence patterns and counts",
  "tests merge a few hand-written databases; the sum must hold for every overlap pattern of names, every kind and any count",
  [MG, MEM + "/mem_scope.py", MEM + "/mem_cover_index_iterator.py"],
  [("bin merging per kind and name", MG), ("cover item iteration by kind", MEM + "/mem_scope.py")])

P("P02", "A merged database is the union of its sources' structure",
  "The merged database contains every design instance, covergroup, covergroup instance, coverpoint and cross that any "
  "source contains, each exactly once under its parent, and nothing else. Each keeps the weight (and each bin the "
  "at-least threshold, each instance its design unit name) of the first source that contains it, and every merged cross "
  "refers to the merged coverpoints of its own covergroup with the same names in the same order. Siblings are in the "
  "order in which the sources first mention them.",
  ["inputs"], "all source databases, name overlaps, presence patterns, weights, thresholds and crossed-coverpoint orders",
  "the union depends on which names coincide between which sources; tests only use identical or disjoint hierarchies",
  [MG], [("scope matching by name", MG), ("cross re-targeting to merged coverpoints", MG)])

P("P03", "Merging leaves sources untouched and ignores order, grouping and reuse",
  "Merging does not modify any source database, and the result shares no mutable coverage data with the sources. "
  "Structure and counts of the result do not depend on the order of the sources, merging in groups and then merging the "
  "partial results gives the same database as merging everything at once, and using the same merger object again gives "
  "the same result as a fresh one.",
  ["inputs", "histories"], "all source databases, permutations, groupings and sequences of merges",
  "tests never re-read sources after a merge, never permute or regroup them, and never reuse a merger",
  [MG, MEM + "/mem_cover_index.py"], [("merge entry point and per-merge state", MG)])

P("P04", "Merging a single database is a faithful copy",
  "Merging exactly one database yields a database with the same instances, covergroups, coverpoints, crosses and bins in "
  "the same order, with the same counts, thresholds and weights, and the same coverage percentages.",
  ["inputs"], "all databases: shapes, names, kinds, counts, thresholds, weights",
  "a copy that drops or alters any attribute is only visible for databases using that attribute",
  [MG, RB], [("scope and bin re-creation", MG)])

P("P05", "Point coverage is the share of regular bins that reached their threshold",
  "The reported coverage of a coverpoint or cross, in covergroup types and instances alike, is exactly 100 times the "
  "number of its regular bins whose count is at least their at-least threshold divided by the number of regular bins, "
  "and 0 when it has none. Ignore and illegal bins never influence it, and each reported bin is flagged as hit exactly "
  "when its count reached its threshold.",
  ["inputs"], "all bin sets, kinds, counts and thresholds",
  "the boundary count == threshold, zero thresholds and kind mixes are rarely sampled",
  [RB, "src/ucis/report/coverage_report.py"], [("hit counting", RB), ("bin hit flag", "src/ucis/report/coverage_report.py")])

P("P06", "Covergroup and overall coverage are weighted means",
  "The reported coverage of a covergroup type or instance is the mean of the coverage of its coverpoints and crosses "
  "weighted by their weights, and the overall coverage is the weighted mean over all covergroup types of all design "
  "instances. Items with weight 0 contribute nothing, the result is 0 (never an error) when there is no weight at all, "
  "and every reported percentage lies between 0 and 100.",
  ["inputs"], "all weights, counts and shapes, including empty and zero-weight ones",
  "weights other than 1 and databases with several instances or none are not sampled by tests",
  [RB], [("weighted mean of points", RB), ("overall mean", RB)])

P("P07", "The coverage report mirrors the database",
  "The report contains every covergroup type of every design instance with its covergroup instances, coverpoints, "
  "crosses and bins (separated into regular, ignore and illegal) in database order, with the database's names, weights, "
  "counts and thresholds. Every reported item can also be found by its name in the lookup map of its parent.",
  ["inputs"], "all databases: shapes, names, kinds, counts, thresholds, weights",
  "dropping or mislabelling an element only shows for databases containing that element",
  [RB, "src/ucis/report/coverage_report.py"], [("report construction", RB)])

P("P08", "Text reports list every item with its coverage and counts",
  "Both text reports print, for every covergroup type, covergroup instance, coverpoint and cross of the report in order "
  "and nested by indentation, one line with its kind, name and coverage, correct to the printed precision (coverage of "
  "points to the nearest percent, of covergroups to two decimals, or to the selected number of digits). With bin details "
  "enabled every bin follows with its exact count, grouped by kind, in database order or with hit bins first when that "
  "is selected.",
  ["inputs", "configurations"], "all reports, names, counts and option settings",
  "tests print reports but do not check the text",
  ["src/ucis/report/format_rpt_text.py", "src/ucis/report/text_coverage_report_formatter.py", RB],
  [("text rendering", "src/ucis/report/format_rpt_text.py"),
   ("text rendering", "src/ucis/report/text_coverage_report_formatter.py")])

P("P09", "The JSON report is a complete transcription of the coverage report",
  "The JSON report is valid JSON for every database and contains the overall coverage and every covergroup, covergroup "
  "instance, coverpoint, cross and bin with its exact name, coverage, count and goal, in report order, regardless of the "
  "characters used in names. Producing it twice gives the same document.",
  ["inputs"], "all databases, names over all characters, kinds, counts and weights",
  "no test checks the content of the JSON report",
  ["src/ucis/report/format_rpt_json.py", "src/ucis/schema/covreport.json", RB],
  [("JSON rendering", "src/ucis/report/format_rpt_json.py")])

exec(open(os.path.join(HERE, "tools", "meta2.py")).read()) if os.path.exists(
    os.path.join(HERE, "tools", "meta2.py")) else None

TECH = ("bounded symbolic execution of the real Python source (re-read from the repository on every run) with z3 deciding "
        "every branch and every assertion; counterexamples are replayed on the unmodified code")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fp:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            fp.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["qtext"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]},
            }) + "\n")
    man = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": [],
           "notes": "run.py explores each harness configuration in its own worker; see DESIGN.md"}
    for p in PROPS:
        if p["na"]:
            man["not_applicable"].append({"property": p["id"], "reason": p["na"]})
            continue
        man["checks"].append({
            "property": p["id"],
            "quick_cmd": "python3 run.py %s quick" % p["id"],
            "thorough_cmd": "python3 run.py %s thorough" % p["id"],
            "technique": TECH,
            "level": "model_checking",
            "level_note": p["note"] or "holds for every value of the symbolic inputs within the bounds listed in the evidence file",
            "evidence_file": "evidence/%s.json" % p["id"],
        })
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as fp:
        json.dump(man, fp, indent=1)
        fp.write("\n")


main()
