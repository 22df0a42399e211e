/^== /{if(n)print n": "x; n=$2;x=""} /oblig/{x=x" "$0} /VIOL/{x=x" V"} /at esl/{x=x" "substr($0,1,140)} END{print n": "x}
