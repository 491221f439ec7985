package props

import "github.com/gkampitakis/go-snaps/snaps"

// executors make the calls of a suite; the default file name of a snapshot is the name of the
// source file they are in.
var executors = []func(snapT, *snaps.Config, Call){execA, execB}

func execA(t snapT, cfg *snaps.Config, c Call) {
	switch {
	case c.Kind == "snap" && cfg != nil:
		cfg.MatchSnapshot(t, build(c.Vals)...)
	case c.Kind == "ssnap" && cfg != nil:
		cfg.MatchStandaloneSnapshot(t, build(c.Vals)[0])
	case c.Kind == "json" && cfg != nil:
		cfg.MatchJSON(t, c.input(), jsonMatchers(c)...)
	case c.Kind == "sjson" && cfg != nil:
		cfg.MatchStandaloneJSON(t, c.input(), jsonMatchers(c)...)
	case c.Kind == "yaml" && cfg != nil:
		cfg.MatchYAML(t, c.input(), yamlMatchers(c)...)
	default:
		do(t, cfg, c)
	}
}
