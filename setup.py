import check
check.build_extract()
check.build_replay()
import kani_run
kani_run.build(check)
import derive_run, os
os.makedirs(os.path.join(check.WORK, "setup"), exist_ok=True)
derive_run.bad_modules(check, os.path.join(check.WORK, "setup"), "exec", {k: s for k, s in derive_run.sources(check).items() if k == "d0"})
print("built")
