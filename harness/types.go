package main

// Message types to register, as many as there are opcodes to tell apart with two bytes.

func init() {
	addType[[1]byte](1)
	addType[[2]byte](2)
	addType[[3]byte](3)
	addType[[4]byte](4)
	addType[[5]byte](5)
	addType[[6]byte](6)
	addType[[7]byte](7)
	addType[[8]byte](8)
	addType[[9]byte](9)
	addType[[10]byte](10)
	addType[[11]byte](11)
	addType[[12]byte](12)
	addType[[13]byte](13)
	addType[[14]byte](14)
	addType[[15]byte](15)
	addType[[16]byte](16)
	addType[[17]byte](17)
	addType[[18]byte](18)
	addType[[19]byte](19)
	addType[[20]byte](20)
	addType[[21]byte](21)
	addType[[22]byte](22)
	addType[[23]byte](23)
	addType[[24]byte](24)
	addType[[25]byte](25)
	addType[[26]byte](26)
	addType[[27]byte](27)
	addType[[28]byte](28)
	addType[[29]byte](29)
	addType[[30]byte](30)
	addType[[31]byte](31)
	addType[[32]byte](32)
	addType[[33]byte](33)
	addType[[34]byte](34)
	addType[[35]byte](35)
	addType[[36]byte](36)
	addType[[37]byte](37)
	addType[[38]byte](38)
	addType[[39]byte](39)
	addType[[40]byte](40)
	addType[[41]byte](41)
	addType[[42]byte](42)
	addType[[43]byte](43)
	addType[[44]byte](44)
	addType[[45]byte](45)
	addType[[46]byte](46)
	addType[[47]byte](47)
	addType[[48]byte](48)
	addType[[49]byte](49)
	addType[[50]byte](50)
	addType[[51]byte](51)
	addType[[52]byte](52)
	addType[[53]byte](53)
	addType[[54]byte](54)
	addType[[55]byte](55)
	addType[[56]byte](56)
	addType[[57]byte](57)
	addType[[58]byte](58)
	addType[[59]byte](59)
	addType[[60]byte](60)
	addType[[61]byte](61)
	addType[[62]byte](62)
	addType[[63]byte](63)
	addType[[64]byte](64)
	addType[[65]byte](65)
	addType[[66]byte](66)
	addType[[67]byte](67)
	addType[[68]byte](68)
	addType[[69]byte](69)
	addType[[70]byte](70)
	addType[[71]byte](71)
	addType[[72]byte](72)
	addType[[73]byte](73)
	addType[[74]byte](74)
	addType[[75]byte](75)
	addType[[76]byte](76)
	addType[[77]byte](77)
	addType[[78]byte](78)
	addType[[79]byte](79)
	addType[[80]byte](80)
	addType[[81]byte](81)
	addType[[82]byte](82)
	addType[[83]byte](83)
	addType[[84]byte](84)
	addType[[85]byte](85)
	addType[[86]byte](86)
	addType[[87]byte](87)
	addType[[88]byte](88)
	addType[[89]byte](89)
	addType[[90]byte](90)
	addType[[91]byte](91)
	addType[[92]byte](92)
	addType[[93]byte](93)
	addType[[94]byte](94)
	addType[[95]byte](95)
	addType[[96]byte](96)
	addType[[97]byte](97)
	addType[[98]byte](98)
	addType[[99]byte](99)
	addType[[100]byte](100)
	addType[[101]byte](101)
	addType[[102]byte](102)
	addType[[103]byte](103)
	addType[[104]byte](104)
	addType[[105]byte](105)
	addType[[106]byte](106)
	addType[[107]byte](107)
	addType[[108]byte](108)
	addType[[109]byte](109)
	addType[[110]byte](110)
	addType[[111]byte](111)
	addType[[112]byte](112)
	addType[[113]byte](113)
	addType[[114]byte](114)
	addType[[115]byte](115)
	addType[[116]byte](116)
	addType[[117]byte](117)
	addType[[118]byte](118)
	addType[[119]byte](119)
	addType[[120]byte](120)
	addType[[121]byte](121)
	addType[[122]byte](122)
	addType[[123]byte](123)
	addType[[124]byte](124)
	addType[[125]byte](125)
	addType[[126]byte](126)
	addType[[127]byte](127)
	addType[[128]byte](128)
	addType[[129]byte](129)
	addType[[130]byte](130)
	addType[[131]byte](131)
	addType[[132]byte](132)
	addType[[133]byte](133)
	addType[[134]byte](134)
	addType[[135]byte](135)
	addType[[136]byte](136)
	addType[[137]byte](137)
	addType[[138]byte](138)
	addType[[139]byte](139)
	addType[[140]byte](140)
	addType[[141]byte](141)
	addType[[142]byte](142)
	addType[[143]byte](143)
	addType[[144]byte](144)
	addType[[145]byte](145)
	addType[[146]byte](146)
	addType[[147]byte](147)
	addType[[148]byte](148)
	addType[[149]byte](149)
	addType[[150]byte](150)
	addType[[151]byte](151)
	addType[[152]byte](152)
	addType[[153]byte](153)
	addType[[154]byte](154)
	addType[[155]byte](155)
	addType[[156]byte](156)
	addType[[157]byte](157)
	addType[[158]byte](158)
	addType[[159]byte](159)
	addType[[160]byte](160)
	addType[[161]byte](161)
	addType[[162]byte](162)
	addType[[163]byte](163)
	addType[[164]byte](164)
	addType[[165]byte](165)
	addType[[166]byte](166)
	addType[[167]byte](167)
	addType[[168]byte](168)
	addType[[169]byte](169)
	addType[[170]byte](170)
	addType[[171]byte](171)
	addType[[172]byte](172)
	addType[[173]byte](173)
	addType[[174]byte](174)
	addType[[175]byte](175)
	addType[[176]byte](176)
	addType[[177]byte](177)
	addType[[178]byte](178)
	addType[[179]byte](179)
	addType[[180]byte](180)
	addType[[181]byte](181)
	addType[[182]byte](182)
	addType[[183]byte](183)
	addType[[184]byte](184)
	addType[[185]byte](185)
	addType[[186]byte](186)
	addType[[187]byte](187)
	addType[[188]byte](188)
	addType[[189]byte](189)
	addType[[190]byte](190)
	addType[[191]byte](191)
	addType[[192]byte](192)
	addType[[193]byte](193)
	addType[[194]byte](194)
	addType[[195]byte](195)
	addType[[196]byte](196)
	addType[[197]byte](197)
	addType[[198]byte](198)
	addType[[199]byte](199)
	addType[[200]byte](200)
	addType[[201]byte](201)
	addType[[202]byte](202)
	addType[[203]byte](203)
	addType[[204]byte](204)
	addType[[205]byte](205)
	addType[[206]byte](206)
	addType[[207]byte](207)
	addType[[208]byte](208)
	addType[[209]byte](209)
	addType[[210]byte](210)
	addType[[211]byte](211)
	addType[[212]byte](212)
	addType[[213]byte](213)
	addType[[214]byte](214)
	addType[[215]byte](215)
	addType[[216]byte](216)
	addType[[217]byte](217)
	addType[[218]byte](218)
	addType[[219]byte](219)
	addType[[220]byte](220)
	addType[[221]byte](221)
	addType[[222]byte](222)
	addType[[223]byte](223)
	addType[[224]byte](224)
	addType[[225]byte](225)
	addType[[226]byte](226)
	addType[[227]byte](227)
	addType[[228]byte](228)
	addType[[229]byte](229)
	addType[[230]byte](230)
	addType[[231]byte](231)
	addType[[232]byte](232)
	addType[[233]byte](233)
	addType[[234]byte](234)
	addType[[235]byte](235)
	addType[[236]byte](236)
	addType[[237]byte](237)
	addType[[238]byte](238)
	addType[[239]byte](239)
	addType[[240]byte](240)
	addType[[241]byte](241)
	addType[[242]byte](242)
	addType[[243]byte](243)
	addType[[244]byte](244)
	addType[[245]byte](245)
	addType[[246]byte](246)
	addType[[247]byte](247)
	addType[[248]byte](248)
	addType[[249]byte](249)
	addType[[250]byte](250)
	addType[[251]byte](251)
	addType[[252]byte](252)
	addType[[253]byte](253)
	addType[[254]byte](254)
	addType[[255]byte](255)
	addType[[256]byte](256)
	addType[[257]byte](257)
	addType[[258]byte](258)
	addType[[259]byte](259)
	addType[[260]byte](260)
	addType[[261]byte](261)
	addType[[262]byte](262)
	addType[[263]byte](263)
	addType[[264]byte](264)
	addType[[265]byte](265)
	addType[[266]byte](266)
	addType[[267]byte](267)
	addType[[268]byte](268)
	addType[[269]byte](269)
	addType[[270]byte](270)
	addType[[271]byte](271)
	addType[[272]byte](272)
	addType[[273]byte](273)
	addType[[274]byte](274)
	addType[[275]byte](275)
	addType[[276]byte](276)
	addType[[277]byte](277)
	addType[[278]byte](278)
	addType[[279]byte](279)
	addType[[280]byte](280)
	addType[[281]byte](281)
	addType[[282]byte](282)
	addType[[283]byte](283)
	addType[[284]byte](284)
	addType[[285]byte](285)
	addType[[286]byte](286)
	addType[[287]byte](287)
	addType[[288]byte](288)
	addType[[289]byte](289)
	addType[[290]byte](290)
	addType[[291]byte](291)
	addType[[292]byte](292)
	addType[[293]byte](293)
	addType[[294]byte](294)
	addType[[295]byte](295)
	addType[[296]byte](296)
	addType[[297]byte](297)
	addType[[298]byte](298)
	addType[[299]byte](299)
	addType[[300]byte](300)
}
