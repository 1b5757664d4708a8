import json,re
props=[json.loads(l) for l in open("/verif/properties.jsonl")]
mods=open("/verif/harness/src/checks/mod.rs").read()
T={
"C01":("differential fuzzing: generated config+video encoded, decoded by dav1d and libaom, compared with the reconstruction","Random structured search; trusts dav1d and libaom. Frames up to ~128x128 pixels area, up to 8 frames."),
"C02":("model-based stateful testing of the send/receive/flush API","Random call histories against a reference model of the protocol; small frames."),
"C03":("metamorphic testing: paired encodes under different threads, schedules, call interleavings and storage","Schedules are those the OS and rayon happen to produce plus varied pool sizes; small frames."),
"C04":("differential testing of every CPU level against pure Rust: kernels and whole encodes","Levels available on the machine that runs the check."),
"C05":("property-based testing of validation against a reference model, plus smoke encodes of extreme accepted configurations","Boundary-biased random configurations; encodes are bounded in size."),
"C06":("model-based testing of keyframe/switch-frame placement, differential mid-stream decoding","Random intervals, forced keyframes and contents; trusts dav1d."),
"C07":("differential testing: headers parsed by dav1d and an independent OBU parser against the configuration","Random valid configurations; trusts dav1d's parser and the harness's OBU walker."),
"C08":("round-trip testing of metadata through an independent OBU parser","Random payloads and attachments."),
"C09":("metamorphic and statistical testing of rate control","Bitrate tolerance is calibrated; clips are short."),
"C10":("round-trip, metamorphic and fault-injection fuzzing of two-pass data","Random chunkings and corruptions."),
"C11":("differential testing of the channel interface against the direct interface under random schedules","Random producer/consumer timings."),
"C12":("model-based stateful testing of the C functions against the Rust interface with ownership counters","Called in process through the exported functions."),
"C13":("differential testing of the command line tool with generated Y4M files and options","Runs the real binary in a scratch directory; trusts dav1d."),
"C14":("round-trip and corruption fuzzing of the IVF reader/writer against a reference parser","Random headers, payloads and damage."),
"C15":("model-based testing of the range coder against a decoder written from the AV1 specification","Random symbol histories."),
"C16":("invariant testing: error bound per plane, and forward/inverse transform round trips","Bounds calibrated with margin on the pinned tree."),
"C17":("model-based testing of tile layout against the AV1 specification over all frame sizes","Layout arithmetic over all sizes; end-to-end on small ones."),
"C18":("round-trip testing of film grain parameters through dav1d plus metamorphic comparison without grain","Random tables; trusts dav1d."),
"C19":("round-trip property testing of serialization","Random configurations, packets and summaries."),
}
import subprocess
HOOKS=[l.split()[0] for l in subprocess.check_output(["git","-C","/repo","log","--format=%h %s"],text=True).splitlines() if l.split(" ",1)[1].startswith("hook:")]
checks=[];na=[]
for p in props:
    i=p["id"]
    if re.search(r"\b%s::CHECK"%i.lower(),mods):
        t,n=T[i]
        checks.append({"property":i,"quick_cmd":"./check.sh %s"%i,"thorough_cmd":"VERIF_TIER=thorough ./check.sh %s"%i,"technique":t,"level":"exploration","level_note":n})
    else:
        na.append({"property":i,"reason":"check not built yet"})
json.dump({"version":1,"setup_cmd":"./check.sh build","checks":checks,"not_applicable":na,
 "hooks":{"guard":"cargo feature bench (exists upstream, off by default)","enable":"harness/Cargo.toml depends on /repo with features asm, threading, capi, serialize, channel-api, unstable, bench","source_commits":HOOKS},
 "notes":"Hooks only re-export private kernels under the existing bench feature; everything else goes through the public API."},open("/verif/MANIFEST.json","w"),indent=1)
