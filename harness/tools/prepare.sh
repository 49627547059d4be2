#!/bin/bash
exec "$(dirname "$0")/../shadow.sh" "$1"
