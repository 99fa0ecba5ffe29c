import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROP = dict(f889cae="P15", c8da5e8="P11", db39b80="P12", **{"3bb160d": "P29", "6904201": "P06", "3404ffc": "P06", "6af102e": "P23", "f654aa8": "P23", "6c97eed": "P21", "d4a8cf1": "P24",
  "fff2ac9": "P07", "d067ad0": "P07", "b2337fc": "P07", "266786f": "P07", "c50fcb1": "P07", "cc0342d": "P03", "8d56139": "P03", "5cd26a0": "P08", "a748f42": "P28",
  "283d07b": "P12", "df0d889": "P11", "7573714": "P13", "992e84f": "P12", "413e4fa": "P19", "a5b066c": "P19", "0bec764": "P25", "7adbc1f": "P24", "0810214": "P24",
  "1a8765d": "P29", "3bdbd57": "P30", "6f49b65": "P30", "95fffb4": "P15", "ddb7e17": "P31", "9852752": "P31", "f89ca5e": "P30", "0b8c2fd": "P31", "8157b86": "P22", "554b7e8": "P32", "741851e": "P32", "14e236e": "P32", "04298c1": "P32", "f927c52": "P32"})
log = subprocess.check_output(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s", "a3ee273..HEAD"], text=True).splitlines()
fixed = []
for l in log:
    h, s = l.split(" ", 1)
    if s.startswith("fix: "):
        fixed.append("fixed: property=%s %s %s" % (PROP[h], h, s[5:]))
known = json.load(open(os.path.join(ROOT, "tools", "known.json")))
json.dump({"known": known, "fixed": fixed}, open(os.path.join(ROOT, "known_findings.json"), "w"), indent=1)
