#!/bin/bash
# Differential test: minilibc's regular expressions against glibc's.
set -e; cd "$(dirname "$0")/../.."; T=$(mktemp -d /tmp/rxst.XXXXXX); trap 'rm -rf "$T"' EXIT
(echo '#define _GNU_SOURCE
#include <regex.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
#include <stdint.h>
static int64_t sym_fail_at(int64_t k) { return k; }
#define regcomp my_regcomp
#define regexec my_regexec
#define regfree my_regfree
#define regerror my_regerror'; awk '/^\/\/ ---- POSIX extended/{p=1;print;next} p&&/^\/\/ ----/{exit} p' minilibc/libc.c) > $T/my.c
gcc -w -g -fsanitize=address,undefined tools/selftest/regex.c $T/my.c -o $T/t && $T/t
