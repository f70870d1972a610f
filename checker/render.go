package main

import (
	"fmt"
	"strings"
)

// render prints a value for reports and comparisons.
func render(v Val) string {
	switch x := v.(type) {
	case nil:
		return "<none>"
	case *Const:
		if s, ok := x.V.(string); ok {
			return s
		}
		return fmt.Sprint(x.V)
	case NilV:
		return "nil"
	case *Sym:
		return "«" + x.Name + "»"
	case *App:
		as := make([]string, len(x.Args))
		for i, a := range x.Args {
			as[i] = render(a)
		}
		return "«" + x.F + "(" + strings.Join(as, ",") + ")»"
	case *Cat:
		return renderParts(x.Parts)
	case *Rep:
		u := ""
		if x.Unord {
			u = "~"
		}
		return "⟦" + renderParts(x.Body) + "⟧" + u + strings.Repeat("+", min(x.Min, 1)) + strings.Repeat("*", 1-min(x.Min, 1))
	case *AltP:
		o := make([]string, len(x.Opts))
		for i, y := range x.Opts {
			o[i] = renderParts(y)
		}
		return "‹" + strings.Join(o, "¦") + "›"
	case *El:
		return "[" + render(x.V) + "]"
	case *Seq:
		return "(" + renderParts(x.Items) + ")"
	case *Alt:
		o := make([]string, len(x.Vals))
		for i, y := range x.Vals {
			o[i] = render(y)
		}
		return "‹" + strings.Join(o, "¦") + "›"
	case *TopV:
		return "⊤(" + x.Why + ")"
	case *Struct:
		o := make([]string, len(x.F))
		for i, y := range x.F {
			o[i] = render(y)
		}
		return "{" + strings.Join(o, " ") + "}"
	case *Iface:
		return render(x.V)
	case *Entry:
		return render(x.K) + "=>" + render(x.V)
	case *Tup:
		return "tup" + renderParts(x.Vs)
	case *Eff:
		o := make([]string, len(x.Args))
		for i, y := range x.Args {
			o[i] = render(y)
		}
		return x.Kind + "(" + strings.Join(o, " | ") + ")"
	case *Lin:
		return render(x.Base) + fmt.Sprintf("%+d", x.Off)
	case *LenOf:
		return "len" + render(x.S)
	}
	return v.Key()
}

func renderParts(ps []Val) string {
	var sb strings.Builder
	for _, p := range ps {
		sb.WriteString(render(p))
	}
	return sb.String()
}
