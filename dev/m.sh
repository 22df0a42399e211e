m(){ echo "== $1"; T=${T:-3} /tmp/w/rf.sh "${P}" ${F} | cut -c1-300; }
