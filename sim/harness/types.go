package main

import (
	"github.com/snivilised/agenor/core"
	"github.com/snivilised/pants"

	"simstd/vos"
)

type vosVerdict = vos.Verdict

type jobOutput = pants.JobOutput[*core.TraverseOutput]
