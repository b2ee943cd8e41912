cd /verif
for p in $1; do for s in ${2:-1 2 3}; do VERIF_SEED=$s ./run.py $p 2>&1 | tail -${3:-12} | cut -c1-1800; done; done
