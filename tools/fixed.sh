#!/bin/bash
# fixed.sh PROPERTY "what failed": records the last /repo commit as a fix
echo "fixed: property=$1 $(git -C /repo rev-parse --short HEAD${3:-}) $2" >> /verif/known-findings.txt
