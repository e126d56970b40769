// Package worlds lists the simulated worlds.
package worlds

import (
	"zntr.io/solid/zz_verif/clientauth"
	"zntr.io/solid/zz_verif/dpop"
	"zntr.io/solid/zz_verif/durable"
	"zntr.io/solid/zz_verif/httpclient"
	"zntr.io/solid/zz_verif/ident"
	"zntr.io/solid/zz_verif/jose"
	"zntr.io/solid/zz_verif/kit"
	"zntr.io/solid/zz_verif/oauth"
	"zntr.io/solid/zz_verif/race"
	"zntr.io/solid/zz_verif/stores"
	"zntr.io/solid/zz_verif/system"
	"zntr.io/solid/zz_verif/tokens"
)

// All maps a world's name to the body of its runs.
var All = map[string]func(*kit.Run){
	"admin":      oauth.AdminMain,
	"clientauth": clientauth.Main,
	"dpop":       dpop.Main,
	"durable":    durable.Main,
	"httpclient": httpclient.Main,
	"ident":      ident.Main,
	"jose":       jose.Main,
	"oauth":      oauth.Main,
	"race":       race.Main,
	"stores":     stores.Main,
	"system":     system.Main,
	"tokens":     tokens.Main,
}
