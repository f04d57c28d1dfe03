#!/bin/bash
# addfix.sh PROPERTY "what failed" -- record /repo's last commit as a repair
c=$(git -C /repo log -1 --format=%h)
echo "fixed: property=$1 $c $2" >> /verif/known_findings.txt
