#!/bin/bash
# Compiles the locales that the simulated users have (usage: locales.sh FOLDER).  Without localedef the simulator runs with the C locale only.
[ -e "$1/done" ] && exit 0
mkdir -p "$1"
localedef -c -i de_DE -f UTF-8 "$1/de_DE.UTF-8" >/dev/null 2>&1
localedef -c -i tr_TR -f ISO-8859-9 "$1/tr_TR.ISO-8859-9" >/dev/null 2>&1
localedef -c -i fr_FR -f UTF-8 "$1/fr_FR.UTF-8" >/dev/null 2>&1
touch "$1/done"
