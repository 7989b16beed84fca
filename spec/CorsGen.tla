------------------------------ MODULE CorsGen -------------------------------
EXTENDS Integers, Sequences, SequencesExt, TLC, Json
CONSTANT OutFile
Opt(S) == {<<>>} \cup {<<x>> : x \in S}
Origins == {"http://a.example", "https://a.example", "http://a.example:8080", "http://A.example", "null", "file:///x", "", "a.example", "http://a.example%41", "http://b.example", "://a.example"}
Configs == [any : {0, 1}, origins : {<<>>, <<"http://a.example">>, <<"http://b.example", "http://a.example:8080", "null">>, <<"", "a.example", "http://a.example%41", "http://A.example">>},
            methods : {<<>>, <<"GET">>, <<"GET", "POST", "PUT">>, <<"post", "options", "Head">>},
            headers : {<<>>, <<"X-A">>, <<"x-a", "X-B">>}]
R(m, o, a, h, t) == [method |-> m, origin |-> o, acrm |-> a, acrh |-> h, ct |-> t]
Requests ==
  {R(m, o, <<>>, <<>>, <<>>) : m \in {"GET", "HEAD", "PUT", "DELETE", "PATCH"}, o \in Opt(Origins)}
  \cup {R(m, o, <<"PUT">>, h, <<>>) : m \in {"GET", "PUT"}, o \in Opt(Origins), h \in {<<>>, <<"X-C">>}}
  \cup {R("POST", o, <<>>, <<>>, t) : o \in Opt(Origins), t \in Opt({"", " ", ";", "text/plain", "Text/PLAIN ; charset=x", "multipart/form-data; boundary=y", "application/json"})}
  \cup {R("OPTIONS", o, a, h, <<>>) : o \in Opt(Origins), a \in Opt({"", " ", "GET", "put", " PUT ", "PUT,GET"}), h \in Opt({"", "X-A", "x-A, X-B", "X-A,,X-C", "X-A X-B", ",", "Content-Type", "accept, X-A"})}
  \cup {R("OPTIONS", o, <<"GET">>, h, <<>>) : o \in Opt({"http://a.example", "null"}), h \in {<<"X-A", "X-B">>, <<"X-A", "X-C">>, <<"", "X-C">>}}
ASSUME JsonSerialize(OutFile, [configs |-> SetToSeq(Configs), requests |-> SetToSeq(Requests)])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
