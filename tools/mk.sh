mk () 
{ 
    mkdir -p /verif/seeded/$1;
    python3 - "$@" <<'EOF'
import json,sys
i,c,f,p,n,b=sys.argv[1:7]
json.dump({"property":p,"needs":n,"what_it_breaks":b},open(f"/verif/seeded/{i}/meta.json","w"),indent=1)
EOF

    python3 /verif/tools/mkseed.py $1 $2 $3 ${FEATS:-}
}
