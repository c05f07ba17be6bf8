import sys, os, time, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build, prog, explore
def main():
    t=time.time()
    out="/tmp/vfprobe"
    h=os.path.join(build.VERIF,"harness",sys.argv[1])
    srcs=[s for s in build.repo_sources() if not s.endswith("file-utils.cc")]
    files=build.build_ir(out,[(h,[])],srcs,[],[])
    print("ir",time.time()-t); t=time.time()
    P=prog.Program(); explore.install_vf(P)
    root=None
    for f in files:
        m=P.add_module(f)
        if os.path.basename(f).startswith(os.path.basename(h).replace(".","_")): root=m
    print("parse",time.time()-t)
    cfg=eval("dict(%s)"%sys.argv[3]) if len(sys.argv)>3 else {}
    for fn in sys.argv[2].split(","):
        r=explore.run_task(P,root,fn,os.environ.get("MODE","real"),cfg,{})
        print(fn,cfg,"paths",r.paths,"reached",r.reached,r.ends,"err",r.error,"unk",r.unknowns,"wall %.2f"%r.wall)
        print("  ",r.stats)
        for c in r.candidates[:6]: print("   CAND",c)
if __name__=="__main__": main()
