// dsv decides semantic properties of the data-structures repository from its source.
package main

import (
	"flag"
	"fmt"
	"os"
	"strconv"

	"dsv/checks"
	"dsv/load"
	"dsv/report"
)

func main() {
	prop := flag.String("property", "", "property id")
	dir := flag.String("dir", "/verif", "where evidence and known findings live")
	list := flag.Bool("list", false, "list the properties that have a check")
	flag.Parse()
	if *list {
		for _, id := range checks.IDs() {
			fmt.Println(id)
		}
		return
	}
	ck := checks.Registry[*prop]
	if ck == nil {
		fmt.Println("unknown property", *prop)
		os.Exit(2)
	}
	r := report.New(ck.ID)
	r.Tier = os.Getenv("VERIF_TIER")
	if r.Tier == "" {
		r.Tier = "quick"
	}
	r.Seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	P, err := load.Load(load.RepoRoot(), ck.Client)
	if err != nil {
		r.Fail("load", "repository", "", err.Error())
		os.Exit(r.Finish(*dir, ck.Explain))
	}
	c := checks.NewCtx(P, r)
	c.Guard("analysis", ck.ID, 0, func() { ck.Run(c) })
	os.Exit(r.Finish(*dir, ck.Explain))
}
