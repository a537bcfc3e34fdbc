package main

import hangul "github.com/suapapa/go_hangul"

var constants = []struct {
	name string
	r    rune
}{
	{"G", hangul.G},
	{"GG", hangul.GG},
	{"GS", hangul.GS},
	{"N", hangul.N},
	{"NJ", hangul.NJ},
	{"NH", hangul.NH},
	{"D", hangul.D},
	{"DD", hangul.DD},
	{"L", hangul.L},
	{"LG", hangul.LG},
	{"LM", hangul.LM},
	{"LB", hangul.LB},
	{"LS", hangul.LS},
	{"LT", hangul.LT},
	{"LP", hangul.LP},
	{"LH", hangul.LH},
	{"M", hangul.M},
	{"B", hangul.B},
	{"BB", hangul.BB},
	{"BS", hangul.BS},
	{"S", hangul.S},
	{"SS", hangul.SS},
	{"ZS", hangul.ZS},
	{"J", hangul.J},
	{"JJ", hangul.JJ},
	{"C", hangul.C},
	{"K", hangul.K},
	{"T", hangul.T},
	{"P", hangul.P},
	{"H", hangul.H},
	{"A", hangul.A},
	{"AE", hangul.AE},
	{"YA", hangul.YA},
	{"YAE", hangul.YAE},
	{"EO", hangul.EO},
	{"E", hangul.E},
	{"YEO", hangul.YEO},
	{"YE", hangul.YE},
	{"O", hangul.O},
	{"WA", hangul.WA},
	{"WAE", hangul.WAE},
	{"OE", hangul.OE},
	{"YO", hangul.YO},
	{"U", hangul.U},
	{"WEO", hangul.WEO},
	{"WE", hangul.WE},
	{"WI", hangul.WI},
	{"YU", hangul.YU},
	{"EU", hangul.EU},
	{"YI", hangul.YI},
	{"I", hangul.I},
	{"NG", hangul.NG},
	{"LeadG", hangul.LeadG},
	{"LeadGG", hangul.LeadGG},
	{"LeadN", hangul.LeadN},
	{"LeadD", hangul.LeadD},
	{"LeadDD", hangul.LeadDD},
	{"LeadR", hangul.LeadR},
	{"LeadM", hangul.LeadM},
	{"LeadB", hangul.LeadB},
	{"LeadBB", hangul.LeadBB},
	{"LeadS", hangul.LeadS},
	{"LeadSS", hangul.LeadSS},
	{"LeadZS", hangul.LeadZS},
	{"LeadJ", hangul.LeadJ},
	{"LeadJJ", hangul.LeadJJ},
	{"LeadC", hangul.LeadC},
	{"LeadK", hangul.LeadK},
	{"LeadT", hangul.LeadT},
	{"LeadP", hangul.LeadP},
	{"LeadH", hangul.LeadH},
	{"MedialA", hangul.MedialA},
	{"MedialAE", hangul.MedialAE},
	{"MedialYA", hangul.MedialYA},
	{"MedialYAE", hangul.MedialYAE},
	{"MedialEO", hangul.MedialEO},
	{"MedialE", hangul.MedialE},
	{"MedialYEO", hangul.MedialYEO},
	{"MedialYE", hangul.MedialYE},
	{"MedialO", hangul.MedialO},
	{"MedialWA", hangul.MedialWA},
	{"MedialWAE", hangul.MedialWAE},
	{"MedialOE", hangul.MedialOE},
	{"MedialYO", hangul.MedialYO},
	{"MedialU", hangul.MedialU},
	{"MedialWEO", hangul.MedialWEO},
	{"MedialWE", hangul.MedialWE},
	{"MedialWI", hangul.MedialWI},
	{"MedialYU", hangul.MedialYU},
	{"MedialEU", hangul.MedialEU},
	{"MedialYI", hangul.MedialYI},
	{"MedialI", hangul.MedialI},
	{"TailG", hangul.TailG},
	{"TailGG", hangul.TailGG},
	{"TailGS", hangul.TailGS},
	{"TailN", hangul.TailN},
	{"TailNJ", hangul.TailNJ},
	{"TailNH", hangul.TailNH},
	{"TailD", hangul.TailD},
	{"TailL", hangul.TailL},
	{"TailLG", hangul.TailLG},
	{"TailLM", hangul.TailLM},
	{"TailLB", hangul.TailLB},
	{"TailLS", hangul.TailLS},
	{"TailLT", hangul.TailLT},
	{"TailLP", hangul.TailLP},
	{"TailLH", hangul.TailLH},
	{"TailM", hangul.TailM},
	{"TailB", hangul.TailB},
	{"TailBS", hangul.TailBS},
	{"TailS", hangul.TailS},
	{"TailSS", hangul.TailSS},
	{"TailNG", hangul.TailNG},
	{"TailJ", hangul.TailJ},
	{"TailC", hangul.TailC},
	{"TailK", hangul.TailK},
	{"TailT", hangul.TailT},
	{"TailP", hangul.TailP},
	{"TailH", hangul.TailH},
}
