import json,subprocess
log=subprocess.run(['git','-C','/repo','log','--format=%H %s','2cdd5e0..HEAD'],capture_output=True,text=True).stdout.splitlines()
hooks=[l.split()[0] for l in log if ' hook:' in l]
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
m={"version":1,"setup_cmd":"bash build.sh",
 "hooks":{"guard":"--cfg tonbo_sim","enable":"RUSTFLAGS='--cfg tonbo_sim' (set by /verif/build.sh)","source_commits":hooks},
 "checks":[{"property":p["id"],"quick_cmd":f"bash check.sh {p['id']} quick","thorough_cmd":f"bash check.sh {p['id']} thorough",
  "technique":"deterministic simulation with fault injection: seeded search over schedules, crash points and fault sequences of the whole database in one process, history checked against a reference model",
  "level":"exploration","level_note":"seeded random search; bounds and measures in evidence and DESIGN.md"} for p in props],
 "not_applicable":[]}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write("\n")
