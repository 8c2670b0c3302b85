#!/bin/bash
# usage: addfix.sh PID "what failed"   (uses the last commit of /repo)
echo "fixed: property=$1 $(git -C /repo rev-parse --short=10 HEAD) $2" >> /verif/known-findings.txt
