#!/bin/bash
# fresh copy of /repo in /tmp/plant/repo
rm -rf /tmp/plant; mkdir -p /tmp/plant; cp -a /repo /tmp/plant/repo
