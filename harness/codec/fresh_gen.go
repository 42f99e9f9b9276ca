package codec

var freshTypes = []fresh{
	fr[[0]struct{}]{},
	fr[[1]struct{}]{},
	fr[[2]struct{}]{},
	fr[[3]struct{}]{},
	fr[[4]struct{}]{},
	fr[[5]struct{}]{},
	fr[[6]struct{}]{},
	fr[[7]struct{}]{},
	fr[[8]struct{}]{},
	fr[[9]struct{}]{},
	fr[[10]struct{}]{},
	fr[[11]struct{}]{},
	fr[[12]struct{}]{},
	fr[[13]struct{}]{},
	fr[[14]struct{}]{},
	fr[[15]struct{}]{},
	fr[[16]struct{}]{},
	fr[[17]struct{}]{},
	fr[[18]struct{}]{},
	fr[[19]struct{}]{},
	fr[[20]struct{}]{},
	fr[[21]struct{}]{},
	fr[[22]struct{}]{},
	fr[[23]struct{}]{},
	fr[[24]struct{}]{},
	fr[[25]struct{}]{},
	fr[[26]struct{}]{},
	fr[[27]struct{}]{},
	fr[[28]struct{}]{},
	fr[[29]struct{}]{},
	fr[[30]struct{}]{},
	fr[[31]struct{}]{},
	fr[[32]struct{}]{},
	fr[[33]struct{}]{},
	fr[[34]struct{}]{},
	fr[[35]struct{}]{},
	fr[[36]struct{}]{},
	fr[[37]struct{}]{},
	fr[[38]struct{}]{},
	fr[[39]struct{}]{},
	fr[[40]struct{}]{},
	fr[[41]struct{}]{},
	fr[[42]struct{}]{},
	fr[[43]struct{}]{},
	fr[[44]struct{}]{},
	fr[[45]struct{}]{},
	fr[[46]struct{}]{},
	fr[[47]struct{}]{},
	fr[[48]struct{}]{},
	fr[[49]struct{}]{},
	fr[[50]struct{}]{},
	fr[[51]struct{}]{},
	fr[[52]struct{}]{},
	fr[[53]struct{}]{},
	fr[[54]struct{}]{},
	fr[[55]struct{}]{},
	fr[[56]struct{}]{},
	fr[[57]struct{}]{},
	fr[[58]struct{}]{},
	fr[[59]struct{}]{},
	fr[[60]struct{}]{},
	fr[[61]struct{}]{},
	fr[[62]struct{}]{},
	fr[[63]struct{}]{},
	fr[[64]struct{}]{},
	fr[[65]struct{}]{},
	fr[[66]struct{}]{},
	fr[[67]struct{}]{},
	fr[[68]struct{}]{},
	fr[[69]struct{}]{},
	fr[[70]struct{}]{},
	fr[[71]struct{}]{},
	fr[[72]struct{}]{},
	fr[[73]struct{}]{},
	fr[[74]struct{}]{},
	fr[[75]struct{}]{},
	fr[[76]struct{}]{},
	fr[[77]struct{}]{},
	fr[[78]struct{}]{},
	fr[[79]struct{}]{},
	fr[[80]struct{}]{},
	fr[[81]struct{}]{},
	fr[[82]struct{}]{},
	fr[[83]struct{}]{},
	fr[[84]struct{}]{},
	fr[[85]struct{}]{},
	fr[[86]struct{}]{},
	fr[[87]struct{}]{},
	fr[[88]struct{}]{},
	fr[[89]struct{}]{},
	fr[[90]struct{}]{},
	fr[[91]struct{}]{},
	fr[[92]struct{}]{},
	fr[[93]struct{}]{},
	fr[[94]struct{}]{},
	fr[[95]struct{}]{},
}
