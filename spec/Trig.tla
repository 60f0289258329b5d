-------------------------------- MODULE Trig --------------------------------
(* Sine and cosine of whole multiples of 1/20 degree, in millionths. *)
EXTENDS Integers, Sequences
Quarter == <<0, 873, 1745, 2618, 3491, 4363, 5236, 6109, 6981, 7854, 8727, 9599, 10472, 11344, 12217, 13090, 13962, 14835, 15707, 16580, 17452, 18325, 19197, 20070, 20942, 21815, 22687, 23560, 24432, 25305, 26177, 27049, 27922, 28794, 29666, 30539, 31411, 32283, 33155, 34027, 34899, 35772, 36644, 37516, 38388, 39260, 40132, 41004, 41876, 42748, 43619, 44491, 45363, 46235, 47106, 47978, 48850, 49721, 50593, 51464, 52336, 53207, 54079, 54950, 55822, 56693, 57564, 58435, 59306, 60177, 61049, 61920, 62791, 63661, 64532, 65403, 66274, 67145, 68015, 68886, 69756, 70627, 71497, 72368, 73238, 74108, 74979, 75849, 76719, 77589, 78459, 79329, 80199, 81069, 81939, 82808, 83678, 84547, 85417, 86286, 87156, 88025, 88894, 89763, 90633, 91502, 92371, 93239, 94108, 94977, 95846, 96714, 97583, 98451, 99320, 100188, 101056, 101924, 102793, 103661, 104528, 105396, 106264, 107132, 107999, 108867, 109734, 110602, 111469, 112336, 113203, 114070, 114937, 115804, 116671, 117537, 118404, 119270, 120137, 121003, 121869, 122735, 123601, 124467, 125333, 126199, 127065, 127930, 128796, 129661, 130526, 131391, 132256, 133121, 133986, 134851, 135716, 136580, 137445, 138309, 139173, 140037, 140901, 141765, 142629, 143493, 144356, 145220, 146083, 146946, 147809, 148672, 149535, 150398, 151261, 152123, 152986, 153848, 154710, 155572, 156434, 157296, 158158, 159020, 159881, 160743, 161604, 162465, 163326, 164187, 165048, 165908, 166769, 167629, 168489, 169350, 170209, 171069, 171929, 172789, 173648, 174508, 175367, 176226, 177085, 177944, 178802, 179661, 180519, 181377, 182236, 183094, 183951, 184809, 185667, 186524, 187381, 188238, 189095, 189952, 190809, 191666, 192522, 193378, 194234, 195090, 195946, 196802, 197657, 198513, 199368, 200223, 201078, 201933, 202787, 203642, 204496, 205350, 206204, 207058, 207912, 208765, 209619, 210472, 211325, 212178, 213030, 213883, 214735, 215588, 216440, 217292, 218143, 218995, 219846, 220697, 221548, 222399, 223250, 224101, 224951, 225801, 226651, 227501, 228351, 229200, 230050, 230899, 231748, 232597, 233445, 234294, 235142, 235990, 236838, 237686, 238533, 239381, 240228, 241075, 241922, 242769, 243615, 244461, 245307, 246153, 246999, 247845, 248690, 249535, 250380, 251225, 252069, 252914, 253758, 254602, 255446, 256289, 257133, 257976, 258819, 259662, 260505, 261347, 262189, 263031, 263873, 264715, 265556, 266397, 267238, 268079, 268920, 269760, 270600, 271440, 272280, 273120, 273959, 274798, 275637, 276476, 277315, 278153, 278991, 279829, 280667, 281504, 282341, 283179, 284015, 284852, 285688, 286525, 287361, 288196, 289032, 289867, 290702, 291537, 292372, 293206, 294040, 294874, 295708, 296542, 297375, 298208, 299041, 299873, 300706, 301538, 302370, 303202, 304033, 304864, 305695, 306526, 307357, 308187, 309017, 309847, 310676, 311506, 312335, 313164, 313992, 314821, 315649, 316477, 317305, 318132, 318959, 319786, 320613, 321439, 322266, 323092, 323917, 324743, 325568, 326393, 327218, 328042, 328867, 329691, 330514, 331338, 332161, 332984, 333807, 334629, 335452, 336274, 337095, 337917, 338738, 339559, 340380, 341200, 342020, 342840, 343660, 344479, 345298, 346117, 346936, 347754, 348572, 349390, 350207, 351025, 351842, 352658, 353475, 354291, 355107, 355923, 356738, 357553, 358368, 359183, 359997, 360811, 361625, 362438, 363251, 364064, 364877, 365689, 366501, 367313, 368125, 368936, 369747, 370557, 371368, 372178, 372988, 373797, 374607, 375416, 376224, 377033, 377841, 378649, 379456, 380263, 381070, 381877, 382683, 383490, 384295, 385101, 385906, 386711, 387516, 388320, 389124, 389928, 390731, 391534, 392337, 393140, 393942, 394744, 395546, 396347, 397148, 397949, 398749, 399549, 400349, 401149, 401948, 402747, 403545, 404344, 405142, 405939, 406737, 407534, 408330, 409127, 409923, 410719, 411514, 412310, 413104, 413899, 414693, 415487, 416281, 417074, 417867, 418660, 419452, 420244, 421036, 421827, 422618, 423409, 424199, 424990, 425779, 426569, 427358, 428147, 428935, 429723, 430511, 431299, 432086, 432873, 433659, 434445, 435231, 436017, 436802, 437587, 438371, 439155, 439939, 440723, 441506, 442289, 443071, 443853, 444635, 445417, 446198, 446979, 447759, 448539, 449319, 450098, 450878, 451656, 452435, 453213, 453990, 454768, 455545, 456322, 457098, 457874, 458650, 459425, 460200, 460974, 461749, 462523, 463296, 464069, 464842, 465615, 466387, 467158, 467930, 468701, 469472, 470242, 471012, 471782, 472551, 473320, 474088, 474856, 475624, 476392, 477159, 477925, 478692, 479458, 480223, 480989, 481754, 482518, 483282, 484046, 484810, 485573, 486335, 487098, 487860, 488621, 489382, 490143, 490904, 491664, 492424, 493183, 493942, 494700, 495459, 496217, 496974, 497731, 498488, 499244, 500000, 500756, 501511, 502266, 503020, 503774, 504528, 505281, 506034, 506786, 507538, 508290, 509041, 509792, 510543, 511293, 512043, 512792, 513541, 514290, 515038, 515786, 516533, 517280, 518027, 518773, 519519, 520265, 521010, 521754, 522499, 523242, 523986, 524729, 525472, 526214, 526956, 527697, 528438, 529179, 529919, 530659, 531399, 532138, 532876, 533615, 534352, 535090, 535827, 536563, 537300, 538035, 538771, 539506, 540240, 540974, 541708, 542442, 543174, 543907, 544639, 545371, 546102, 546833, 547563, 548293, 549023, 549752, 550481, 551209, 551937, 552664, 553392, 554118, 554844, 555570, 556296, 557021, 557745, 558469, 559193, 559916, 560639, 561361, 562083, 562805, 563526, 564247, 564967, 565687, 566406, 567125, 567844, 568562, 569280, 569997, 570714, 571430, 572146, 572861, 573576, 574291, 575005, 575719, 576432, 577145, 577858, 578570, 579281, 579992, 580703, 581413, 582123, 582832, 583541, 584250, 584958, 585665, 586372, 587079, 587785, 588491, 589196, 589901, 590606, 591310, 592013, 592716, 593419, 594121, 594823, 595524, 596225, 596925, 597625, 598325, 599024, 599722, 600420, 601118, 601815, 602512, 603208, 603904, 604599, 605294, 605988, 606682, 607376, 608069, 608761, 609454, 610145, 610836, 611527, 612217, 612907, 613596, 614285, 614974, 615661, 616349, 617036, 617722, 618408, 619094, 619779, 620464, 621148, 621831, 622515, 623197, 623880, 624561, 625243, 625923, 626604, 627284, 627963, 628642, 629320, 629998, 630676, 631353, 632029, 632705, 633381, 634056, 634731, 635405, 636078, 636751, 637424, 638096, 638768, 639439, 640110, 640780, 641450, 642119, 642788, 643456, 644124, 644791, 645458, 646124, 646790, 647455, 648120, 648784, 649448, 650111, 650774, 651437, 652098, 652760, 653421, 654081, 654741, 655400, 656059, 656717, 657375, 658033, 658689, 659346, 660002, 660657, 661312, 661966, 662620, 663273, 663926, 664579, 665230, 665882, 666532, 667183, 667833, 668482, 669131, 669779, 670427, 671074, 671721, 672367, 673013, 673658, 674302, 674947, 675590, 676233, 676876, 677518, 678160, 678801, 679441, 680081, 680721, 681360, 681998, 682636, 683274, 683911, 684547, 685183, 685818, 686453, 687088, 687721, 688355, 688987, 689620, 690251, 690882, 691513, 692143, 692773, 693402, 694030, 694658, 695286, 695913, 696539, 697165, 697790, 698415, 699040, 699663, 700287, 700909, 701531, 702153, 702774, 703395, 704015, 704634, 705253, 705872, 706489, 707107, 707724, 708340, 708956, 709571, 710185, 710799, 711413, 712026, 712639, 713250, 713862, 714473, 715083, 715693, 716302, 716911, 717519, 718126, 718733, 719340, 719946, 720551, 721156, 721760, 722364, 722967, 723570, 724172, 724773, 725374, 725975, 726575, 727174, 727773, 728371, 728969, 729566, 730162, 730758, 731354, 731949, 732543, 733137, 733730, 734323, 734915, 735506, 736097, 736687, 737277, 737867, 738455, 739043, 739631, 740218, 740805, 741391, 741976, 742561, 743145, 743728, 744312, 744894, 745476, 746057, 746638, 747218, 747798, 748377, 748956, 749534, 750111, 750688, 751264, 751840, 752415, 752989, 753563, 754137, 754710, 755282, 755853, 756425, 756995, 757565, 758134, 758703, 759271, 759839, 760406, 760972, 761538, 762104, 762668, 763232, 763796, 764359, 764921, 765483, 766044, 766605, 767165, 767725, 768284, 768842, 769400, 769957, 770513, 771069, 771625, 772179, 772734, 773287, 773840, 774393, 774944, 775496, 776046, 776596, 777146, 777695, 778243, 778791, 779338, 779884, 780430, 780976, 781520, 782065, 782608, 783151, 783693, 784235, 784776, 785317, 785857, 786396, 786935, 787473, 788011, 788548, 789084, 789620, 790155, 790690, 791224, 791757, 792290, 792822, 793353, 793884, 794415, 794944, 795473, 796002, 796530, 797057, 797584, 798110, 798636, 799160, 799685, 800208, 800731, 801254, 801776, 802297, 802817, 803337, 803857, 804376, 804894, 805411, 805928, 806445, 806960, 807475, 807990, 808504, 809017, 809530, 810042, 810553, 811064, 811574, 812084, 812592, 813101, 813608, 814116, 814622, 815128, 815633, 816138, 816642, 817145, 817648, 818150, 818651, 819152, 819652, 820152, 820651, 821149, 821647, 822144, 822641, 823136, 823632, 824126, 824620, 825113, 825606, 826098, 826590, 827081, 827571, 828060, 828549, 829038, 829525, 830012, 830499, 830984, 831470, 831954, 832438, 832921, 833404, 833886, 834367, 834848, 835328, 835807, 836286, 836764, 837242, 837719, 838195, 838671, 839146, 839620, 840094, 840567, 841039, 841511, 841982, 842452, 842922, 843391, 843860, 844328, 844795, 845262, 845728, 846193, 846658, 847122, 847585, 848048, 848510, 848972, 849433, 849893, 850352, 850811, 851269, 851727, 852184, 852640, 853096, 853551, 854005, 854459, 854912, 855364, 855816, 856267, 856718, 857167, 857616, 858065, 858513, 858960, 859406, 859852, 860297, 860742, 861186, 861629, 862072, 862514, 862955, 863396, 863836, 864275, 864713, 865151, 865589, 866025, 866461, 866897, 867331, 867765, 868199, 868632, 869064, 869495, 869926, 870356, 870785, 871214, 871642, 872069, 872496, 872922, 873347, 873772, 874196, 874620, 875042, 875465, 875886, 876307, 876727, 877146, 877565, 877983, 878400, 878817, 879233, 879649, 880063, 880477, 880891, 881303, 881715, 882127, 882538, 882948, 883357, 883766, 884174, 884581, 884988, 885394, 885799, 886204, 886608, 887011, 887413, 887815, 888217, 888617, 889017, 889416, 889815, 890213, 890610, 891007, 891402, 891798, 892192, 892586, 892979, 893371, 893763, 894154, 894545, 894934, 895323, 895712, 896099, 896486, 896873, 897258, 897643, 898028, 898411, 898794, 899176, 899558, 899939, 900319, 900698, 901077, 901455, 901833, 902209, 902585, 902961, 903335, 903709, 904083, 904455, 904827, 905198, 905569, 905939, 906308, 906676, 907044, 907411, 907777, 908143, 908508, 908872, 909236, 909599, 909961, 910323, 910684, 911044, 911403, 911762, 912120, 912477, 912834, 913190, 913545, 913900, 914254, 914607, 914960, 915311, 915663, 916013, 916363, 916712, 917060, 917408, 917755, 918101, 918446, 918791, 919135, 919479, 919821, 920164, 920505, 920845, 921185, 921525, 921863, 922201, 922538, 922875, 923210, 923545, 923880, 924213, 924546, 924878, 925210, 925541, 925871, 926200, 926529, 926857, 927184, 927510, 927836, 928161, 928486, 928810, 929133, 929455, 929776, 930097, 930418, 930737, 931056, 931374, 931691, 932008, 932324, 932639, 932954, 933267, 933580, 933893, 934204, 934515, 934826, 935135, 935444, 935752, 936060, 936366, 936672, 936977, 937282, 937586, 937889, 938191, 938493, 938794, 939094, 939394, 939693, 939991, 940288, 940585, 940881, 941176, 941471, 941764, 942057, 942350, 942641, 942932, 943223, 943512, 943801, 944089, 944376, 944663, 944949, 945234, 945519, 945802, 946085, 946368, 946649, 946930, 947210, 947490, 947768, 948046, 948324, 948600, 948876, 949151, 949425, 949699, 949972, 950244, 950516, 950786, 951057, 951326, 951594, 951862, 952129, 952396, 952661, 952926, 953191, 953454, 953717, 953979, 954240, 954501, 954761, 955020, 955278, 955536, 955793, 956049, 956305, 956560, 956814, 957067, 957319, 957571, 957822, 958073, 958323, 958572, 958820, 959067, 959314, 959560, 959805, 960050, 960294, 960537, 960779, 961021, 961262, 961502, 961741, 961980, 962218, 962455, 962692, 962928, 963163, 963397, 963630, 963863, 964095, 964327, 964557, 964787, 965016, 965245, 965473, 965700, 965926, 966151, 966376, 966600, 966823, 967046, 967268, 967489, 967709, 967929, 968148, 968366, 968583, 968800, 969016, 969231, 969445, 969659, 969872, 970084, 970296, 970506, 970716, 970926, 971134, 971342, 971549, 971755, 971961, 972166, 972370, 972573, 972776, 972978, 973179, 973379, 973579, 973778, 973976, 974173, 974370, 974566, 974761, 974956, 975149, 975342, 975535, 975726, 975917, 976107, 976296, 976485, 976672, 976859, 977046, 977231, 977416, 977600, 977783, 977966, 978148, 978329, 978509, 978689, 978867, 979045, 979223, 979399, 979575, 979750, 979925, 980098, 980271, 980443, 980615, 980785, 980955, 981124, 981293, 981460, 981627, 981793, 981959, 982123, 982287, 982450, 982613, 982774, 982935, 983096, 983255, 983414, 983571, 983729, 983885, 984041, 984196, 984350, 984503, 984656, 984808, 984959, 985109, 985259, 985408, 985556, 985703, 985850, 985996, 986141, 986286, 986429, 986572, 986714, 986856, 986996, 987136, 987275, 987414, 987551, 987688, 987824, 987960, 988094, 988228, 988362, 988494, 988626, 988756, 988886, 989016, 989144, 989272, 989399, 989526, 989651, 989776, 989900, 990024, 990146, 990268, 990389, 990509, 990629, 990748, 990866, 990983, 991100, 991216, 991331, 991445, 991558, 991671, 991783, 991894, 992005, 992115, 992224, 992332, 992439, 992546, 992652, 992757, 992862, 992966, 993068, 993171, 993272, 993373, 993473, 993572, 993670, 993768, 993865, 993961, 994056, 994151, 994245, 994338, 994430, 994522, 994613, 994703, 994792, 994881, 994969, 995056, 995142, 995227, 995312, 995396, 995479, 995562, 995644, 995725, 995805, 995884, 995963, 996041, 996118, 996195, 996270, 996345, 996419, 996493, 996566, 996637, 996709, 996779, 996848, 996917, 996985, 997053, 997119, 997185, 997250, 997314, 997378, 997441, 997503, 997564, 997625, 997684, 997743, 997801, 997859, 997916, 997972, 998027, 998081, 998135, 998188, 998240, 998291, 998342, 998392, 998441, 998489, 998537, 998583, 998630, 998675, 998719, 998763, 998806, 998848, 998890, 998931, 998971, 999010, 999048, 999086, 999123, 999159, 999194, 999229, 999263, 999296, 999328, 999360, 999391, 999421, 999450, 999479, 999507, 999534, 999560, 999585, 999610, 999634, 999657, 999680, 999701, 999722, 999743, 999762, 999781, 999799, 999816, 999832, 999848, 999863, 999877, 999890, 999903, 999914, 999925, 999936, 999945, 999954, 999962, 999969, 999976, 999981, 999986, 999990, 999994, 999997, 999998, 1000000, 1000000>>
Wrap(u) == u % 7200
SinU(v) == LET u == Wrap(v) IN
  IF u <= 1800 THEN Quarter[u + 1] ELSE IF u <= 3600 THEN Quarter[3601 - u]
  ELSE IF u <= 5400 THEN -Quarter[u - 3599] ELSE -Quarter[7201 - u]
CosU(v) == SinU(v + 1800)
=============================================================================
