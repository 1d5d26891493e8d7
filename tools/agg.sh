#!/bin/bash
# aggregate replays/<ID>.txt by panic location (development aid)
grep -v '^#' /verif/replays/$1.txt | sed -E 's/^([^\t]*)\t(.*)$/\2\t\1/' | sed -E 's/[0-9]{2,}( |$|,|\.)/N\1/g; s/is [0-9]+/is N/g' | awk -F'\t' '{c[$1]++; if(!($1 in e)) e[$1]=$2} END{for(k in c) printf "%6d %s   e.g. %s\n", c[k], substr(k,1,170), e[k]}' | sort -k2,3
