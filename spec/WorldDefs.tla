----------------------------- MODULE WorldDefs -----------------------------
(* Worlds: nuclear spin, level objects (configuration, term without J, doubled J,
   parity, energy, constants, g factor, alias given at construction), which of
   them start in the atom, and the values operations may use. *)
EXTENDS Rat

Lv(c, t, j, p, e) == [c |-> c, t |-> t, j |-> j, p |-> p, e |-> Q(e), hf |-> <<RZero, RZero, RZero>>, g |-> Q(1), al |-> ""]
LvX(c, t, j, p, e, A, B, C, g, al) ==
    [c |-> c, t |-> t, j |-> j, p |-> p, e |-> Q(e), hf |-> <<A, B, C>>, g |-> g, al |-> al]
T0(a, b, A) == [a |-> a, b |-> b, sf |-> <<>>, A |-> A]
TF(a, b, f, A) == [a |-> a, b |-> b, sf |-> VU(Q(f)), A |-> A]

NoVals == [e |-> {}, df |-> {}, hf |-> {}, g |-> {}, b |-> {}, q |-> {}, A |-> {}]
World(i, b, unit, lv, start, tr0, vals) ==
    [i |-> i, b |-> b, unit |-> unit, lv |-> lv, start |-> start, tr0 |-> tr0, vals |-> vals,
     aliases |-> {"ground", "e", "S 1/2", "meta F=2", "clock*"}, taliases |-> {"cooling", "repump", "t 1", "clock*"},
     rows |-> {}]

(* ---------------------------------------------------------------- networks *)
NetVals == [NoVals EXCEPT !.df = {Q(-300), Q(0), Q(110), R(701, 10)}, !.e = {Q(45000), Q(210000)}, !.A = {Q(1)}]
NetLv == << Lv("6s", "2S", 1, 1, 0), Lv("6p", "2P*", 1, -1, 260000), Lv("5d", "2D", 3, 1, 120000),
            Lv("6p", "2P*", 3, -1, 340000), Lv("7s", "2S", 1, 1, 510000) >>
WNet == << World(0, 0, "1e9", NetLv, <<1, 2, 3, 4, 5>>, <<>>, NetVals),
           World(1, 5, "1.1e9", NetLv, <<5, 4, 3, 2>>, <<T0(2, 4, Q(1))>>, NetVals),
           World(3, 0, "7e8", SubSeq(NetLv, 1, 4), <<1, 3>>, <<>>, NetVals) >>
WNetSmall == << World(0, 0, "1e9", SubSeq(NetLv, 1, 3), <<2, 1, 3>>, <<>>,
                      [NetVals EXCEPT !.df = {Q(0), Q(110)}]),
                World(0, 0, "3e9", SubSeq(NetLv, 1, 4), <<1, 2, 3>>, <<T0(1, 2, <<>>), T0(2, 3, <<>>), T0(1, 3, <<>>)>>,
                      [NetVals EXCEPT !.df = {Q(-300)}]) >>

(* -------------------------------------------------------------- energies *)
HierVals == [ e |-> {Q(30000), Q(152000), R(200001, 2)}, df |-> {Q(-40), Q(25), R(7, 2)},
              hf |-> {RZero, Q(4), Q(-12), Q(24)}, g |-> {Q(1), Q(2), R(-1, 2), R(2, 3), RZero},
              b |-> {0, 1, 10, -4}, q |-> {RZero, R(1, 10), R(-3, 20)}, A |-> {Q(1), Q(20)} ]
WHier == << World(1, 1, "1e9", << LvX("6s", "2S", 1, 1, 0, Q(12), RZero, RZero, Q(2), ""),
                                  LvX("6p", "2P*", 3, -1, 100000, Q(4), Q(24), RZero, R(4, 3), "") >>,
                  <<1, 2>>, <<T0(1, 2, Q(20))>>, HierVals),
            World(3, 0, "1.7e9", << LvX("5d", "2D", 3, 1, 60000, Q(-4), Q(12), Q(8), R(4, 5), ""),
                                    LvX("6p", "2P*", 1, -1, 230000, Q(8), RZero, RZero, R(2, 3), "") >>,
                  <<1, 2>>, <<T0(2, 1, Q(3))>>, HierVals),
            World(2, 10, "6e8", << LvX("6s2", "1S", 0, 1, 0, RZero, RZero, RZero, Q(1), ""),
                                   LvX("6s.6p", "3P*", 2, -1, 90000, Q(4), Q(24), RZero, R(3, 2), ""),
                                   LvX("6s.5d", "3D", 4, 1, 180000, Q(-4), Q(-12), RZero, R(7, 6), "") >>,
                  <<2, 1, 3>>, <<T0(1, 2, Q(1)), T0(2, 3, Q(7))>>, HierVals),
            World(0, 2, "1e9", << LvX("6s", "2S", 1, 1, 0, RZero, RZero, RZero, Q(2), ""),
                                  LvX("5d", "2D", 5, 1, 110000, RZero, RZero, RZero, R(6, 5), "") >>,
                  <<1, 2>>, <<T0(1, 2, Q(1))>>, HierVals),
            World(5, 3, "1e9", << LvX("4f14.5d", "2D", 5, 1, 50000, Q(-4), Q(24), Q(-20), R(6, 5), ""),
                                  LvX("6p", "2P*", 3, -1, 300000, Q(7), Q(12), Q(8), R(4, 3), "") >>,
                  <<2, 1>>, <<T0(1, 2, Q(9))>>, HierVals) >>
(* two manifolds tied by assigned transitions *)
WTied == << World(1, 2, "1e9", << LvX("6s", "2S", 1, 1, 0, Q(12), RZero, RZero, Q(2), ""),
                                  LvX("6p", "2P*", 1, -1, 260000, Q(4), RZero, RZero, R(2, 3), ""),
                                  LvX("5d", "2D", 3, 1, 120000, Q(4), Q(24), RZero, R(4, 5), "") >>,
                  <<1, 2, 3>>, <<T0(1, 2, Q(20)), T0(3, 2, Q(1))>>, HierVals),
            World(2, 0, "1.3e9", << LvX("6s2", "1S", 0, 1, 10000, RZero, RZero, RZero, Q(1), ""),
                                    LvX("6s.6p", "3P*", 2, -1, 90000, Q(4), Q(24), RZero, R(3, 2), ""),
                                    LvX("6s.5d", "3D", 2, 1, 180000, Q(-4), Q(-12), RZero, R(1, 2), ""),
                                    LvX("6s.6p", "1P*", 2, -1, 250000, Q(4), RZero, RZero, R(1, 2), "") >>,
                  <<4, 3, 2, 1>>, <<T0(1, 2, Q(20)), T0(3, 2, Q(1)), T0(1, 4, Q(5))>>, HierVals) >>

(* ----------------------------------------------------------- keys, containers *)
KeyVals == [HierVals EXCEPT !.e = {Q(5000), R(50001, 10), R(50003, 10), Q(47000), Q(88000), Q(131000), R(1310007, 10), Q(290000), Q(-1500)}]
KeyLv == << LvX("6s", "2S", 1, 1, 0, Q(12), RZero, RZero, Q(2), ""),
            LvX("6p", "2P*", 1, -1, 100000, Q(4), RZero, RZero, R(2, 3), ""),
            LvX("5d", "2D", 3, 1, 60000, Q(4), Q(24), RZero, R(4, 5), "D"),
            LvX("4f13(2F*<7/2>)6s2", "2F*", 5, -1, 160000, Q(4), RZero, RZero, R(8, 7), ""),
            LvX("4f13(2F*<7/2>).5d.6s(3D)", "3[3/2]*", 3, -1, 210000, Q(4), RZero, RZero, R(8, 7), "br acket") >>
WKeys == << World(1, 1, "1e9", KeyLv, <<1, 2, 3, 4>>, <<T0(1, 2, Q(20)), T0(3, 2, Q(1)), T0(4, 3, <<>>)>>, KeyVals),
            World(0, 2, "1e9", SubSeq(KeyLv, 1, 4), <<4, 1, 2, 3>>, <<T0(2, 1, Q(20)), T0(2, 3, Q(1)), T0(3, 1, Q(1))>>, KeyVals),
            World(3, 1, "1e9", KeyLv, <<3, 2, 5, 1>>, <<T0(5, 1, Q(20)), T0(3, 5, Q(1)), T0(1, 2, Q(1)), T0(2, 2, Q(1))>>, KeyVals),
            World(2, 4, "1e9", << LvX("6s2", "1S", 0, 1, 0, RZero, RZero, RZero, Q(1), ""),
                                  LvX("6s.6p", "3P*", 2, -1, 90000, Q(4), Q(24), RZero, R(3, 2), "P one"),
                                  LvX("6s.6p", "3P*", 0, -1, 70000, RZero, RZero, RZero, R(3, 2), ""),
                                  LvX("6s.6p", "1P*", 2, -1, 120000, Q(4), RZero, RZero, R(1, 2), "") >>,
                  <<1, 2, 3>>, <<T0(1, 2, Q(1))>>, KeyVals) >>
(* small atoms whose keys are all tried *)
WKeyTab == << World(1, 1, "1e9", SubSeq(KeyLv, 1, 3), <<3, 1, 2>>, <<T0(1, 2, Q(20)), T0(3, 2, Q(1))>>, KeyVals),
              World(0, 2, "1e9", SubSeq(KeyLv, 1, 4), <<4, 1, 3>>, <<T0(4, 1, Q(20)), T0(3, 1, Q(1))>>, KeyVals),
              World(2, 1, "1e9", <<KeyLv[5], KeyLv[2], KeyLv[1]>>, <<1, 2>>, <<T0(2, 1, Q(20)), T0(2, 2, Q(1))>>, KeyVals),
              World(3, 4, "1e9", << LvX("6s2", "1S", 0, 1, 0, RZero, RZero, RZero, Q(1), "g"),
                                    LvX("6s.6p", "3P*", 2, -1, 90000, Q(4), Q(24), RZero, R(3, 2), "P one") >>,
                    <<2, 1>>, <<T0(2, 1, Q(1))>>, KeyVals) >>
WCont == << World(1, 1, "1e9", KeyLv, <<>>, <<>>, KeyVals),
            World(0, 0, "1e9", SubSeq(KeyLv, 1, 4), <<1, 2>>, <<>>, KeyVals),
            World(2, 1, "1e9", KeyLv, <<2, 3, 4>>, <<T0(2, 3, Q(1)), T0(4, 3, Q(2))>>,
                  KeyVals) >>
WContSmall == << [World(1, 1, "1e9", SubSeq(KeyLv, 1, 3), <<1>>, <<>>, KeyVals)
                    EXCEPT !.aliases = {"e", "D"}, !.taliases = {"t 1"}] >>

(* ------------------------------------------------------------------- decay *)
DecVals == [HierVals EXCEPT !.A = {RZero, Q(1), Q(20), R(1, 4), R(3, 10), Q(7)}, !.e = {Q(5000), Q(20000), Q(210000), Q(355000)}]
DecLv == << LvX("6s", "2S", 1, 1, 0, Q(12), RZero, RZero, Q(2), ""),
            LvX("6p", "2P*", 1, -1, 260000, Q(4), RZero, RZero, R(2, 3), ""),
            LvX("5d", "2D", 3, 1, 120000, Q(4), RZero, RZero, R(4, 5), ""),
            LvX("6p", "2P*", 3, -1, 300000, Q(4), RZero, RZero, R(4, 3), "P"),
            LvX("5d", "2D", 5, 1, 150000, Q(-4), RZero, RZero, R(6, 5), "") >>
WDecay == << World(1, 2, "1e9", DecLv, <<1, 2, 3, 4, 5>>, <<T0(1, 2, Q(20)), T0(3, 2, Q(1)), T0(4, 1, Q(7))>>, DecVals),
             World(0, 1, "1e9", DecLv, <<5, 4, 3, 2, 1>>, <<T0(2, 1, Q(20)), T0(5, 4, Q(1)), T0(1, 5, R(1, 4))>>, DecVals),
             World(3, 0, "1e9", SubSeq(DecLv, 1, 3), <<3, 2, 1>>, <<T0(2, 1, Q(20)), T0(2, 3, R(3, 10)), T0(1, 3, <<>>)>>, DecVals) >>

(* ---------------------------------------------------------------- populate *)
PopLv == << Lv("6s", "2S", 1, 1, 0), Lv("6p", "2P*", 1, -1, 260000), Lv("5d", "2D", 3, 1, 120000),
            Lv("6p", "2P*", 3, -1, 340000), Lv("5d", "2D", 5, 1, 150000), Lv("4f", "2F*", 7, -1, 410000),
            Lv("5g", "2G", 9, 1, 455000) >>
PopLv2 == << Lv("6s2", "1S", 0, 1, 0), Lv("6s.6p", "3P*", 0, -1, 70000), Lv("6s.6p", "3P*", 2, -1, 90000),
             Lv("6s.6p", "3P*", 4, -1, 115000), Lv("6s.5d", "3D", 6, 1, 180000), Lv("6s.5d", "1D", 4, 1, 150000),
             Lv("6s.7s", "1S", 0, 1, 210000) >>
Row(l, u, f, A) == [l |-> l, u |-> u, sf |-> f, A |-> A]
PopVals == [HierVals EXCEPT !.e = {Q(5000), Q(205000), Q(-1500)}]
WPop == << [World(1, 1, "1e9", PopLv, <<1, 2, 3, 4>>, <<T0(1, 2, Q(20))>>, PopVals)
              EXCEPT !.rows = { <<Row(1, 4, VU(Q(340500)), Q(7)), Row(3, 6, <<>>, Q(2)), Row(3, 4, VU(Q(219000)), Q(1))>>,
                                <<Row(2, 3, VU(Q(141000)), <<>>)>>,
                                <<Row(1, 4, <<>>, Q(7)), Row(1, 4, VU(Q(340500)), Q(1)), Row(2, 5, VU(Q(109900)), Q(1)), Row(5, 2, <<>>, Q(7))>>,
                                <<Row(1, 5, VU(Q(150100)), Q(1)), Row(7, 1, <<>>, Q(2)), Row(5, 4, <<>>, <<>>)>> }],
           [World(0, 0, "1.1e9", PopLv2, <<7, 6, 5, 4, 3, 2, 1>>, <<T0(1, 3, Q(2))>>, PopVals)
              EXCEPT !.rows = { <<Row(1, 4, VU(Q(115500)), Q(7)), Row(3, 6, <<>>, Q(2))>>,
                                <<Row(6, 5, VU(Q(30050)), Q(2)), Row(3, 7, VU(Q(120010)), Q(3)), Row(2, 6, <<>>, Q(1))>> }],
           [World(2, 0, "1e9", PopLv, <<7, 2, 5, 6>>, <<>>, PopVals)
              EXCEPT !.rows = { <<Row(2, 7, <<>>, Q(3)), Row(5, 6, VU(Q(260200)), Q(2)), Row(1, 2, VU(Q(1)), Q(1))>> }] >>

(* large momenta *)
WPopHigh == << World(0, 0, "1e9", << Lv("a", "2K", 29, 1, 0), Lv("b", "2L*", 27, -1, 260000), Lv("c", "2M*", 29, -1, 120000),
                                     Lv("d", "2D", 25, 1, 340000), Lv("e", "2N*", 27, -1, 150000) >>,
                     <<1, 2, 3, 4, 5>>, <<>>, PopVals),
               World(0, 0, "1e9", << Lv("a", "1K", 28, 1, 0), Lv("b", "1L*", 30, -1, 260000), Lv("c", "1M*", 26, -1, 120000),
                                     Lv("d", "1D", 30, 1, 340000), Lv("e", "1N*", 28, -1, 150000) >>,
                     <<3, 2, 1, 4, 5>>, <<>>, PopVals),
               World(0, 0, "1e9", << Lv("a", "2K", 41, 1, 0), Lv("b", "2L*", 43, -1, 260000), Lv("c", "2M*", 39, -1, 120000),
                                     Lv("d", "2D", 45, 1, 340000) >>,
                     <<3, 2, 1, 4>>, <<>>, PopVals) >>

(* --------------------------------------------- components over all kinds of pairs *)
CompVals == [HierVals EXCEPT !.A = {RZero, Q(1), Q(20), R(1, 4)}, !.e = {Q(5000), Q(205000), Q(330000), Q(-1500)}]
CompLv == << LvX("6s", "2S", 1, 1, 0, Q(12), RZero, RZero, Q(2), ""),
             LvX("6p", "2P*", 1, -1, 260000, Q(4), RZero, RZero, R(2, 3), ""),
             LvX("5d", "2D", 3, 1, 120000, Q(4), RZero, RZero, R(4, 5), ""),
             LvX("5d", "2D", 5, 1, 150000, Q(-4), RZero, RZero, R(6, 5), ""),
             LvX("4f", "2F*", 5, -1, 300000, Q(4), RZero, RZero, R(8, 7), "") >>
CompLv2 == << LvX("6s2", "1S", 0, 1, 0, RZero, RZero, RZero, Q(1), ""),
              LvX("6s.6p", "3P*", 2, -1, 90000, Q(4), RZero, RZero, R(3, 2), ""),
              LvX("6s.5d", "3D", 4, 1, 180000, Q(-4), RZero, RZero, R(7, 6), ""),
              LvX("6s.6p", "3P*", 0, -1, 70000, RZero, RZero, RZero, R(3, 2), ""),
              LvX("6s.7s", "3S", 2, 1, 240000, Q(8), RZero, RZero, Q(2), "") >>
WComp == << World(1, 1, "1e9", CompLv, <<1, 2, 3>>, <<T0(1, 2, Q(20)), T0(3, 1, Q(1)), T0(1, 1, Q(1))>>, CompVals),
            World(0, 2, "1e9", CompLv, <<5, 4, 3, 2, 1>>, <<T0(2, 1, Q(20)), T0(5, 4, <<>>), T0(1, 4, R(1, 4))>>, CompVals),
            World(2, 1, "1e9", CompLv2, <<1, 2, 3, 4, 5>>, <<T0(2, 1, Q(20)), T0(3, 2, Q(1)), T0(3, 5, Q(1))>>, CompVals),
            World(3, 0, "1e9", SubSeq(CompLv2, 1, 4), <<4, 2, 3>>, <<T0(4, 2, Q(20)), T0(2, 2, Q(1)), T0(3, 2, <<>>)>>, CompVals) >>

(* -------------------------------------------------------- saving and reading *)
WSave == << World(1, 1, "1e9", KeyLv, <<1, 2, 3>>, <<T0(1, 2, Q(20))>>, KeyVals),
            World(2, 0, "1.1e9", << LvX("6s2", "1S", 0, 1, 0, RZero, RZero, RZero, Q(1), ""),
                                  LvX("6s.6p", "3P*", 2, -1, 90000, Q(4), Q(24), RZero, R(3, 2), "P one"),
                                  LvX("6s.5d", "3D", 4, 1, 180000, Q(-4), Q(-12), RZero, R(7, 6), "") >>,
                  <<1, 2, 3>>, <<TF(1, 2, 90100, Q(1)), T0(2, 3, Q(7))>>, HierVals),
            World(0, 3, "1e9", SubSeq(KeyLv, 1, 4), <<2, 4, 1>>, <<T0(1, 2, Q(20)), T0(2, 2, Q(1))>>, KeyVals) >>
WRead == << World(1, 1, "1e9", KeyLv, <<1, 2, 3>>, <<T0(1, 2, Q(20)), T0(3, 2, Q(1))>>, KeyVals),
            World(2, 3, "1.1e9", << LvX("6s2", "1S", 0, 1, 0, RZero, RZero, RZero, Q(1), ""),
                                  LvX("6s.6p", "3P*", 2, -1, 90000, Q(4), Q(24), RZero, R(3, 2), "P one"),
                                  LvX("6s.5d", "3D", 4, 1, 180000, Q(-4), Q(-12), RZero, R(7, 6), "") >>,
                  <<1, 2, 3>>, <<TF(1, 2, 90100, Q(1)), T0(2, 3, Q(7))>>, HierVals),
            World(0, 3, "1e9", SubSeq(KeyLv, 1, 4), <<2, 4, 1>>, <<T0(1, 2, Q(20)), T0(2, 2, Q(1))>>, KeyVals),
            World(3, 2, "1e9", << LvX("6p", "2P*", 3, -1, 100000, Q(4), Q(24), Q(8), R(4, 3), ""),
                                  LvX("5d", "2D", 3, 1, 60000, Q(4), Q(24), RZero, R(4, 5), "D") >>,
                  <<1, 2>>, <<T0(1, 2, Q(20))>>, KeyVals) >>

(* ---------------------------------------------------------------- diagrams *)
WDraw == << World(1, 2, "1e9", SubSeq(DecLv, 1, 4), <<1, 2, 3, 4>>, <<T0(1, 2, Q(20)), T0(3, 2, Q(1)), T0(4, 1, Q(7))>>, HierVals),
            World(3, 5, "1.3e9", << LvX("6s", "2S", 1, 1, 20000, Q(12), RZero, RZero, Q(2), ""),
                                    LvX("6p", "2P*", 3, -1, 230000, Q(4), Q(24), Q(8), R(4, 3), ""),
                                    LvX("5d", "2D", 5, 1, 120000, Q(-4), Q(-12), RZero, R(6, 5), "") >>,
                  <<3, 2, 1>>, <<T0(1, 2, Q(20)), T0(3, 2, Q(1))>>, HierVals),
            World(2, 1, "1e9", << LvX("6s2", "1S", 0, 1, 0, RZero, RZero, RZero, Q(1), ""),
                                  LvX("6s.6p", "3P*", 2, -1, 90000, Q(4), Q(24), RZero, R(3, 2), ""),
                                  LvX("6s.5d", "3D", 4, 1, 180000, Q(-4), Q(-12), RZero, R(7, 6), "") >>,
                  <<2, 1, 3>>, <<T0(1, 2, Q(1)), T0(2, 3, Q(7))>>, HierVals),
            World(0, 3, "1e9", SubSeq(DecLv, 1, 3), <<2, 1, 3>>, <<T0(2, 1, Q(20)), T0(2, 3, Q(1))>>, HierVals) >>

(* -------------------------------------------------------- hyperfine tables *)
CsvVals == [HierVals EXCEPT !.hf = {RZero, Q(4), Q(-12), R(7, 3)}]
WCsv == << World(3, 1, "1e9", << LvX("6s", "2S", 1, 1, 0, Q(12), RZero, RZero, Q(2), ""),
                                 LvX("4f13(2F*<7/2>)5d6s(3D<2>)", "(7/2,2)*", 7, -1, 100000, Q(4), Q(24), R(1, 7), R(2, 3), "x,y"),
                                 LvX("5d \"odd\"", "2D", 3, 1, 60000, Q(-4), Q(24), RZero, R(4, 5), "D"),
                                 LvX("\"5d\"", "2D", 5, 1, 160000, RZero, R(-22, 7), RZero, R(8, 7), ""),
                                 LvX("4f13(2F*<7/2>).5d.6s(3D)", "3[3/2]*", 3, -1, 210000, RZero, Q(-24), RZero, R(8, 7), "br acket") >>,
                 <<1, 2, 3, 4>>, <<T0(1, 2, Q(20)), T0(3, 2, Q(1))>>, CsvVals),
           World(1, 0, "1.1e6", << LvX("6s2", "1S", 0, 1, 0, RZero, RZero, RZero, Q(1), ""),
                                  LvX("6s.6p,", "3P*", 2, -1, 90000, Q(4), Q(24), RZero, R(3, 2), "P one"),
                                  LvX(",6s.6p", "1P*", 2, -1, 120000, RZero, RZero, R(1, 3), R(3, 2), ""),
                                  LvX("'6s.5d' ;", "3D", 4, 1, 180000, Q(-4), Q(-12), RZero, R(7, 6), "") >>,
                 <<4, 2, 1>>, <<T0(1, 2, Q(1)), T0(2, 4, Q(7))>>, CsvVals),
           World(0, 3, "1e9", SubSeq(KeyLv, 1, 4), <<2, 4, 1>>, <<T0(1, 2, Q(20)), T0(2, 2, Q(1))>>, CsvVals) >>
=============================================================================
