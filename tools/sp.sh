sp () 
{ 
    mkdir -p /verif/seeded/$1;
    git diff > /verif/seeded/$1/patch.diff;
    git checkout -q -- .;
    wc -l < /verif/seeded/$1/patch.diff
}
