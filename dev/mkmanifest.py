"""regenerates /verif/MANIFEST.json"""
import json, os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
AI = "static analysis: whole-program abstract interpretation of the Python sources, the Lark grammar (lexer and LALR automaton modelled) and the JSON schemas; "
NOTE = "bounded by the enumerated document/operation families (each leaf string or number is unknown); see DESIGN.md; undecided obligations are listed in the evidence and never alarm"
CLAIMS = {
    "C01": AI + "writer/reader agreement: abstract loads-dumps-loads equality per (type, keyword, value alternative) and structure",
    "C02": AI + "reader contract: abstract result of loads compared with an independently generated dictionary",
    "C03": AI + "writer contract: abstract output of dumps read back by an independent lexeme matcher; refusal of unrepresentable values; API edit scenarios",
    "C19": AI + "vocabulary agreement: exhaustive (block type, keyword, value alternative, position, parent) product and every declared default, interpreted through parser, transformer, printer lookup and validator",
    "C04": AI + "abstract fixpoint of dumps-loads-dumps and independence of set iteration order",
    "C10": AI + "abstract stored expression strings read by an independent precedence reader and compared with the source tree, exhaustive small trees",
    "C05": AI + "abstract equality of the dictionaries loaded from equivalent surface renderings (keyword case, blanks, line breaks, comments, quotes, bare words)",
    "C13": AI + "abstract equality of the dictionaries and printed texts with and without position and comment bookkeeping",
    "C07": AI + "validate interpreted on every (block type, keyword, value, parent chain) compared with an independent evaluator and localiser over the schema files",
    "C09": AI + "validate with a version interpreted on every version-annotated schema entry at versions around every bound, compared with an independent evaluator over independently pruned schema files; question sequences and schema exports on one Validator",
    "C08": AI + "position records of the interpreted loads compared with the places where an independent renderer put every keyword and value (symbolic columns where texts are unknown); every validation message compared with the place of the violating keyword or block",
    "C11": AI + "LR-automaton coverage of the grammar with outcome classification, token and character mutations, counting of abstract operations for growth, static ambiguity analysis of every regular expression",
    "C15": AI + "include trees over a model file system, compared with the substituted text through every loader",
    "C20": AI + "loaders and writers compared through a model file system on texts and values with unknown parts; the command line functions interpreted through a model of click and compared with the API",
    "C14": AI + "comment plans over documents: every printed comment matched with the comments of the source (verbatim, once, attached), with unknown comment texts and option sets",
    "C12": AI + "argument values before and after calls; reused objects and module functions compared with a freshly imported package over document sequences; effect analysis of shared writes with evaluation of the interrupted schedules where there are any",
    "C06": AI + "abstract equality of the dictionaries loaded from differently formatted texts, over the option cross product",
    "C16": AI + "the abstract printed text matched line by line against an independent layout model, over the option cross product",
    "C17": AI + "refinement of a reference mapping by every dictionary operation on abstract states",
    "C18": AI + "refinement of reference update/find functions over patch shapes with unknown leaves",
}
CLAIMS.update({k: v for k, v in json.load(open(os.path.join(HERE, "dev", "claims.json"))).items()} if os.path.exists(os.path.join(HERE, "dev", "claims.json")) else {})
NA = {}
props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for p in props:
    if p in CLAIMS:
        m["checks"].append({"property": p, "level": "other", "level_note": NOTE, "technique": CLAIMS[p] if CLAIMS[p].startswith("static") else AI + CLAIMS[p],
                            "quick_cmd": "python3-vt check.py %s --tier quick" % p, "thorough_cmd": "python3-vt check.py %s --tier thorough" % p, "evidence_file": "evidence/%s.json" % p})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "check not built yet")})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
