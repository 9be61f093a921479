#!/bin/sh
cd /verif && git add -A && git commit -qm "$1" ; vcheck $2 > /tmp/vcheck.out 2>&1; tail -5 /tmp/vcheck.out
