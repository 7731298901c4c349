#!/usr/bin/env bash
# campaign.sh MUTANTS OUTDIR WORKERS: runs tools/mutate.py work in WORKERS mount namespaces, each with its own copy of /repo, /verif and /opt/vp under /tmp/mut.
mutants=$1 out=$2 m=$3
mkdir -p "$out"
for k in $(seq 0 $((m - 1))); do
  d=/tmp/mut/w$k
  if [ ! -d $d ]; then mkdir -p $d; cp -a /repo $d/repo; cp -a /verif $d/verif; cp -a /opt/vp $d/vp; fi
  # nothing is stale in a worker: every file it changes gets a new time
  sed -i 's/^        clean = ""$/        clean = ""; now = "x"; os.path.exists(stamp) and open(stamp, "w").write(now)/' $d/verif/lib/stages.py
  unshare -m bash -c "mount --bind $d/repo /repo && mount --bind $d/verif /verif && mount --bind $d/vp /opt/vp && exec python3 $d/verif/tools/mutate.py work $mutants $out/$k.jsonl $k $m" >$out/$k.log 2>&1 &
done
wait
