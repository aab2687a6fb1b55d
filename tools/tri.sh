#!/bin/bash
# triage: run batches, summarise violation classes.  tri.sh "C01 C02" "clean faults" N SECS
cd /verif; B=$(python3 tools/build.py gsim) || exit 2
for p in $1; do for m in $2; do ( $B batch $p $m ${5:-1} $3 $4 2>/dev/null > /tmp/tri.$p.$m ) & done; done; wait
for p in $1; do for m in $2; do echo "== $p $m"; awk -F'|' '{c[$2]++; if($2!="OK"){k=""; for(i=1;i<=NF;i++){if($i~/^class=/)k=$i; if($i~/^msg=/)ms=$i}; cc[k]++; if(cc[k]<=3) print $1,$2,k,substr(ms,1,400)}} END{for(x in c)print x,c[x]; for(x in cc)print "   ",x,cc[x]}' /tmp/tri.$p.$m; done; done
