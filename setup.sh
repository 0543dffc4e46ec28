#!/bin/bash
# Pre-build the driver and the dependency metadata, so that checks only re-analyse the workspace crate.
cd /verif && bash facts.sh
