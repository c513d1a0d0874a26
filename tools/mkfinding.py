"""Developer aid: turn the violations in replays/ (after human triage) into known-findings lines, one per case.
usage: mkfinding.py C04 'case-glob' 'what fails'   (prints; never run by a check)"""
import fnmatch, glob, json, os, re, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
prop, pat, what = sys.argv[1:4]
for f in sorted(glob.glob(f"{H}/replays/{prop}_*.json")):
    j = json.load(open(f))
    if not fnmatch.fnmatchcase(j["case"], pat):
        continue
    labs = []
    for v in j["violations"]:
        l = re.sub(r"\d+\[[^]]*\]", "*", v["label"])
        l = re.sub(r"\[[^]]*\]", "*", l).replace(" ", "?")
        l = re.sub(r"\*+", "*", l)
        if l not in labs:
            labs.append(l)
    print(f"open: property={prop} case={j['case']} label={'|'.join(labs)} :: {what}")
