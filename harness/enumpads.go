package harness

// Enums to have many registered

type (
	Pad0   int
	Pad1   uint8
	Pad2   string
	Pad3   int32
	Pad4   int
	Pad5   uint8
	Pad6   string
	Pad7   int32
	Pad8   int
	Pad9   uint8
	Pad10  string
	Pad11  int32
	Pad12  int
	Pad13  uint8
	Pad14  string
	Pad15  int32
	Pad16  int
	Pad17  uint8
	Pad18  string
	Pad19  int32
	Pad20  int
	Pad21  uint8
	Pad22  string
	Pad23  int32
	Pad24  int
	Pad25  uint8
	Pad26  string
	Pad27  int32
	Pad28  int
	Pad29  uint8
	Pad30  string
	Pad31  int32
	Pad32  int
	Pad33  uint8
	Pad34  string
	Pad35  int32
	Pad36  int
	Pad37  uint8
	Pad38  string
	Pad39  int32
	Pad40  int
	Pad41  uint8
	Pad42  string
	Pad43  int32
	Pad44  int
	Pad45  uint8
	Pad46  string
	Pad47  int32
	Pad48  int
	Pad49  uint8
	Pad50  string
	Pad51  int32
	Pad52  int
	Pad53  uint8
	Pad54  string
	Pad55  int32
	Pad56  int
	Pad57  uint8
	Pad58  string
	Pad59  int32
	Pad60  int
	Pad61  uint8
	Pad62  string
	Pad63  int32
	Pad64  int
	Pad65  uint8
	Pad66  string
	Pad67  int32
	Pad68  int
	Pad69  uint8
	Pad70  string
	Pad71  int32
	Pad72  int
	Pad73  uint8
	Pad74  string
	Pad75  int32
	Pad76  int
	Pad77  uint8
	Pad78  string
	Pad79  int32
	Pad80  int
	Pad81  uint8
	Pad82  string
	Pad83  int32
	Pad84  int
	Pad85  uint8
	Pad86  string
	Pad87  int32
	Pad88  int
	Pad89  uint8
	Pad90  string
	Pad91  int32
	Pad92  int
	Pad93  uint8
	Pad94  string
	Pad95  int32
	Pad96  int
	Pad97  uint8
	Pad98  string
	Pad99  int32
	Pad100 int
	Pad101 uint8
	Pad102 string
	Pad103 int32
	Pad104 int
	Pad105 uint8
	Pad106 string
	Pad107 int32
	Pad108 int
	Pad109 uint8
	Pad110 string
	Pad111 int32
	Pad112 int
	Pad113 uint8
	Pad114 string
	Pad115 int32
	Pad116 int
	Pad117 uint8
	Pad118 string
	Pad119 int32
	Pad120 int
	Pad121 uint8
	Pad122 string
	Pad123 int32
	Pad124 int
	Pad125 uint8
	Pad126 string
	Pad127 int32
	Pad128 int
	Pad129 uint8
	Pad130 string
	Pad131 int32
	Pad132 int
	Pad133 uint8
	Pad134 string
	Pad135 int32
	Pad136 int
	Pad137 uint8
	Pad138 string
	Pad139 int32
	Pad140 int
	Pad141 uint8
	Pad142 string
	Pad143 int32
	Pad144 int
	Pad145 uint8
	Pad146 string
	Pad147 int32
	Pad148 int
	Pad149 uint8
	Pad150 string
	Pad151 int32
	Pad152 int
	Pad153 uint8
	Pad154 string
	Pad155 int32
	Pad156 int
	Pad157 uint8
	Pad158 string
	Pad159 int32
	Pad160 int
	Pad161 uint8
	Pad162 string
	Pad163 int32
	Pad164 int
	Pad165 uint8
	Pad166 string
	Pad167 int32
	Pad168 int
	Pad169 uint8
	Pad170 string
	Pad171 int32
	Pad172 int
	Pad173 uint8
	Pad174 string
	Pad175 int32
	Pad176 int
	Pad177 uint8
	Pad178 string
	Pad179 int32
	Pad180 int
	Pad181 uint8
	Pad182 string
	Pad183 int32
	Pad184 int
	Pad185 uint8
	Pad186 string
	Pad187 int32
	Pad188 int
	Pad189 uint8
	Pad190 string
	Pad191 int32
	Pad192 int
	Pad193 uint8
	Pad194 string
	Pad195 int32
	Pad196 int
	Pad197 uint8
	Pad198 string
	Pad199 int32
	Pad200 int
	Pad201 uint8
	Pad202 string
	Pad203 int32
	Pad204 int
	Pad205 uint8
	Pad206 string
	Pad207 int32
	Pad208 int
	Pad209 uint8
	Pad210 string
	Pad211 int32
	Pad212 int
	Pad213 uint8
	Pad214 string
	Pad215 int32
	Pad216 int
	Pad217 uint8
	Pad218 string
	Pad219 int32
	Pad220 int
	Pad221 uint8
	Pad222 string
	Pad223 int32
	Pad224 int
	Pad225 uint8
	Pad226 string
	Pad227 int32
	Pad228 int
	Pad229 uint8
	Pad230 string
	Pad231 int32
	Pad232 int
	Pad233 uint8
	Pad234 string
	Pad235 int32
	Pad236 int
	Pad237 uint8
	Pad238 string
	Pad239 int32
	Pad240 int
	Pad241 uint8
	Pad242 string
	Pad243 int32
	Pad244 int
	Pad245 uint8
	Pad246 string
	Pad247 int32
	Pad248 int
	Pad249 uint8
	Pad250 string
	Pad251 int32
	Pad252 int
	Pad253 uint8
	Pad254 string
	Pad255 int32
	Pad256 int
	Pad257 uint8
	Pad258 string
	Pad259 int32
	Pad260 int
	Pad261 uint8
	Pad262 string
	Pad263 int32
	Pad264 int
	Pad265 uint8
	Pad266 string
	Pad267 int32
	Pad268 int
	Pad269 uint8
)

var padEnums = []interface{}{
	map[string]Pad0{"A": 1, "B": 2},
	map[string]Pad1{"A": 1, "B": 2},
	map[string]Pad2{"A": "1", "B": "2"},
	map[string]Pad3{"A": 1, "B": 2},
	map[string]Pad4{"A": 1, "B": 2},
	map[string]Pad5{"A": 1, "B": 2},
	map[string]Pad6{"A": "1", "B": "2"},
	map[string]Pad7{"A": 1, "B": 2},
	map[string]Pad8{"A": 1, "B": 2},
	map[string]Pad9{"A": 1, "B": 2},
	map[string]Pad10{"A": "1", "B": "2"},
	map[string]Pad11{"A": 1, "B": 2},
	map[string]Pad12{"A": 1, "B": 2},
	map[string]Pad13{"A": 1, "B": 2},
	map[string]Pad14{"A": "1", "B": "2"},
	map[string]Pad15{"A": 1, "B": 2},
	map[string]Pad16{"A": 1, "B": 2},
	map[string]Pad17{"A": 1, "B": 2},
	map[string]Pad18{"A": "1", "B": "2"},
	map[string]Pad19{"A": 1, "B": 2},
	map[string]Pad20{"A": 1, "B": 2},
	map[string]Pad21{"A": 1, "B": 2},
	map[string]Pad22{"A": "1", "B": "2"},
	map[string]Pad23{"A": 1, "B": 2},
	map[string]Pad24{"A": 1, "B": 2},
	map[string]Pad25{"A": 1, "B": 2},
	map[string]Pad26{"A": "1", "B": "2"},
	map[string]Pad27{"A": 1, "B": 2},
	map[string]Pad28{"A": 1, "B": 2},
	map[string]Pad29{"A": 1, "B": 2},
	map[string]Pad30{"A": "1", "B": "2"},
	map[string]Pad31{"A": 1, "B": 2},
	map[string]Pad32{"A": 1, "B": 2},
	map[string]Pad33{"A": 1, "B": 2},
	map[string]Pad34{"A": "1", "B": "2"},
	map[string]Pad35{"A": 1, "B": 2},
	map[string]Pad36{"A": 1, "B": 2},
	map[string]Pad37{"A": 1, "B": 2},
	map[string]Pad38{"A": "1", "B": "2"},
	map[string]Pad39{"A": 1, "B": 2},
	map[string]Pad40{"A": 1, "B": 2},
	map[string]Pad41{"A": 1, "B": 2},
	map[string]Pad42{"A": "1", "B": "2"},
	map[string]Pad43{"A": 1, "B": 2},
	map[string]Pad44{"A": 1, "B": 2},
	map[string]Pad45{"A": 1, "B": 2},
	map[string]Pad46{"A": "1", "B": "2"},
	map[string]Pad47{"A": 1, "B": 2},
	map[string]Pad48{"A": 1, "B": 2},
	map[string]Pad49{"A": 1, "B": 2},
	map[string]Pad50{"A": "1", "B": "2"},
	map[string]Pad51{"A": 1, "B": 2},
	map[string]Pad52{"A": 1, "B": 2},
	map[string]Pad53{"A": 1, "B": 2},
	map[string]Pad54{"A": "1", "B": "2"},
	map[string]Pad55{"A": 1, "B": 2},
	map[string]Pad56{"A": 1, "B": 2},
	map[string]Pad57{"A": 1, "B": 2},
	map[string]Pad58{"A": "1", "B": "2"},
	map[string]Pad59{"A": 1, "B": 2},
	map[string]Pad60{"A": 1, "B": 2},
	map[string]Pad61{"A": 1, "B": 2},
	map[string]Pad62{"A": "1", "B": "2"},
	map[string]Pad63{"A": 1, "B": 2},
	map[string]Pad64{"A": 1, "B": 2},
	map[string]Pad65{"A": 1, "B": 2},
	map[string]Pad66{"A": "1", "B": "2"},
	map[string]Pad67{"A": 1, "B": 2},
	map[string]Pad68{"A": 1, "B": 2},
	map[string]Pad69{"A": 1, "B": 2},
	map[string]Pad70{"A": "1", "B": "2"},
	map[string]Pad71{"A": 1, "B": 2},
	map[string]Pad72{"A": 1, "B": 2},
	map[string]Pad73{"A": 1, "B": 2},
	map[string]Pad74{"A": "1", "B": "2"},
	map[string]Pad75{"A": 1, "B": 2},
	map[string]Pad76{"A": 1, "B": 2},
	map[string]Pad77{"A": 1, "B": 2},
	map[string]Pad78{"A": "1", "B": "2"},
	map[string]Pad79{"A": 1, "B": 2},
	map[string]Pad80{"A": 1, "B": 2},
	map[string]Pad81{"A": 1, "B": 2},
	map[string]Pad82{"A": "1", "B": "2"},
	map[string]Pad83{"A": 1, "B": 2},
	map[string]Pad84{"A": 1, "B": 2},
	map[string]Pad85{"A": 1, "B": 2},
	map[string]Pad86{"A": "1", "B": "2"},
	map[string]Pad87{"A": 1, "B": 2},
	map[string]Pad88{"A": 1, "B": 2},
	map[string]Pad89{"A": 1, "B": 2},
	map[string]Pad90{"A": "1", "B": "2"},
	map[string]Pad91{"A": 1, "B": 2},
	map[string]Pad92{"A": 1, "B": 2},
	map[string]Pad93{"A": 1, "B": 2},
	map[string]Pad94{"A": "1", "B": "2"},
	map[string]Pad95{"A": 1, "B": 2},
	map[string]Pad96{"A": 1, "B": 2},
	map[string]Pad97{"A": 1, "B": 2},
	map[string]Pad98{"A": "1", "B": "2"},
	map[string]Pad99{"A": 1, "B": 2},
	map[string]Pad100{"A": 1, "B": 2},
	map[string]Pad101{"A": 1, "B": 2},
	map[string]Pad102{"A": "1", "B": "2"},
	map[string]Pad103{"A": 1, "B": 2},
	map[string]Pad104{"A": 1, "B": 2},
	map[string]Pad105{"A": 1, "B": 2},
	map[string]Pad106{"A": "1", "B": "2"},
	map[string]Pad107{"A": 1, "B": 2},
	map[string]Pad108{"A": 1, "B": 2},
	map[string]Pad109{"A": 1, "B": 2},
	map[string]Pad110{"A": "1", "B": "2"},
	map[string]Pad111{"A": 1, "B": 2},
	map[string]Pad112{"A": 1, "B": 2},
	map[string]Pad113{"A": 1, "B": 2},
	map[string]Pad114{"A": "1", "B": "2"},
	map[string]Pad115{"A": 1, "B": 2},
	map[string]Pad116{"A": 1, "B": 2},
	map[string]Pad117{"A": 1, "B": 2},
	map[string]Pad118{"A": "1", "B": "2"},
	map[string]Pad119{"A": 1, "B": 2},
	map[string]Pad120{"A": 1, "B": 2},
	map[string]Pad121{"A": 1, "B": 2},
	map[string]Pad122{"A": "1", "B": "2"},
	map[string]Pad123{"A": 1, "B": 2},
	map[string]Pad124{"A": 1, "B": 2},
	map[string]Pad125{"A": 1, "B": 2},
	map[string]Pad126{"A": "1", "B": "2"},
	map[string]Pad127{"A": 1, "B": 2},
	map[string]Pad128{"A": 1, "B": 2},
	map[string]Pad129{"A": 1, "B": 2},
	map[string]Pad130{"A": "1", "B": "2"},
	map[string]Pad131{"A": 1, "B": 2},
	map[string]Pad132{"A": 1, "B": 2},
	map[string]Pad133{"A": 1, "B": 2},
	map[string]Pad134{"A": "1", "B": "2"},
	map[string]Pad135{"A": 1, "B": 2},
	map[string]Pad136{"A": 1, "B": 2},
	map[string]Pad137{"A": 1, "B": 2},
	map[string]Pad138{"A": "1", "B": "2"},
	map[string]Pad139{"A": 1, "B": 2},
	map[string]Pad140{"A": 1, "B": 2},
	map[string]Pad141{"A": 1, "B": 2},
	map[string]Pad142{"A": "1", "B": "2"},
	map[string]Pad143{"A": 1, "B": 2},
	map[string]Pad144{"A": 1, "B": 2},
	map[string]Pad145{"A": 1, "B": 2},
	map[string]Pad146{"A": "1", "B": "2"},
	map[string]Pad147{"A": 1, "B": 2},
	map[string]Pad148{"A": 1, "B": 2},
	map[string]Pad149{"A": 1, "B": 2},
	map[string]Pad150{"A": "1", "B": "2"},
	map[string]Pad151{"A": 1, "B": 2},
	map[string]Pad152{"A": 1, "B": 2},
	map[string]Pad153{"A": 1, "B": 2},
	map[string]Pad154{"A": "1", "B": "2"},
	map[string]Pad155{"A": 1, "B": 2},
	map[string]Pad156{"A": 1, "B": 2},
	map[string]Pad157{"A": 1, "B": 2},
	map[string]Pad158{"A": "1", "B": "2"},
	map[string]Pad159{"A": 1, "B": 2},
	map[string]Pad160{"A": 1, "B": 2},
	map[string]Pad161{"A": 1, "B": 2},
	map[string]Pad162{"A": "1", "B": "2"},
	map[string]Pad163{"A": 1, "B": 2},
	map[string]Pad164{"A": 1, "B": 2},
	map[string]Pad165{"A": 1, "B": 2},
	map[string]Pad166{"A": "1", "B": "2"},
	map[string]Pad167{"A": 1, "B": 2},
	map[string]Pad168{"A": 1, "B": 2},
	map[string]Pad169{"A": 1, "B": 2},
	map[string]Pad170{"A": "1", "B": "2"},
	map[string]Pad171{"A": 1, "B": 2},
	map[string]Pad172{"A": 1, "B": 2},
	map[string]Pad173{"A": 1, "B": 2},
	map[string]Pad174{"A": "1", "B": "2"},
	map[string]Pad175{"A": 1, "B": 2},
	map[string]Pad176{"A": 1, "B": 2},
	map[string]Pad177{"A": 1, "B": 2},
	map[string]Pad178{"A": "1", "B": "2"},
	map[string]Pad179{"A": 1, "B": 2},
	map[string]Pad180{"A": 1, "B": 2},
	map[string]Pad181{"A": 1, "B": 2},
	map[string]Pad182{"A": "1", "B": "2"},
	map[string]Pad183{"A": 1, "B": 2},
	map[string]Pad184{"A": 1, "B": 2},
	map[string]Pad185{"A": 1, "B": 2},
	map[string]Pad186{"A": "1", "B": "2"},
	map[string]Pad187{"A": 1, "B": 2},
	map[string]Pad188{"A": 1, "B": 2},
	map[string]Pad189{"A": 1, "B": 2},
	map[string]Pad190{"A": "1", "B": "2"},
	map[string]Pad191{"A": 1, "B": 2},
	map[string]Pad192{"A": 1, "B": 2},
	map[string]Pad193{"A": 1, "B": 2},
	map[string]Pad194{"A": "1", "B": "2"},
	map[string]Pad195{"A": 1, "B": 2},
	map[string]Pad196{"A": 1, "B": 2},
	map[string]Pad197{"A": 1, "B": 2},
	map[string]Pad198{"A": "1", "B": "2"},
	map[string]Pad199{"A": 1, "B": 2},
	map[string]Pad200{"A": 1, "B": 2},
	map[string]Pad201{"A": 1, "B": 2},
	map[string]Pad202{"A": "1", "B": "2"},
	map[string]Pad203{"A": 1, "B": 2},
	map[string]Pad204{"A": 1, "B": 2},
	map[string]Pad205{"A": 1, "B": 2},
	map[string]Pad206{"A": "1", "B": "2"},
	map[string]Pad207{"A": 1, "B": 2},
	map[string]Pad208{"A": 1, "B": 2},
	map[string]Pad209{"A": 1, "B": 2},
	map[string]Pad210{"A": "1", "B": "2"},
	map[string]Pad211{"A": 1, "B": 2},
	map[string]Pad212{"A": 1, "B": 2},
	map[string]Pad213{"A": 1, "B": 2},
	map[string]Pad214{"A": "1", "B": "2"},
	map[string]Pad215{"A": 1, "B": 2},
	map[string]Pad216{"A": 1, "B": 2},
	map[string]Pad217{"A": 1, "B": 2},
	map[string]Pad218{"A": "1", "B": "2"},
	map[string]Pad219{"A": 1, "B": 2},
	map[string]Pad220{"A": 1, "B": 2},
	map[string]Pad221{"A": 1, "B": 2},
	map[string]Pad222{"A": "1", "B": "2"},
	map[string]Pad223{"A": 1, "B": 2},
	map[string]Pad224{"A": 1, "B": 2},
	map[string]Pad225{"A": 1, "B": 2},
	map[string]Pad226{"A": "1", "B": "2"},
	map[string]Pad227{"A": 1, "B": 2},
	map[string]Pad228{"A": 1, "B": 2},
	map[string]Pad229{"A": 1, "B": 2},
	map[string]Pad230{"A": "1", "B": "2"},
	map[string]Pad231{"A": 1, "B": 2},
	map[string]Pad232{"A": 1, "B": 2},
	map[string]Pad233{"A": 1, "B": 2},
	map[string]Pad234{"A": "1", "B": "2"},
	map[string]Pad235{"A": 1, "B": 2},
	map[string]Pad236{"A": 1, "B": 2},
	map[string]Pad237{"A": 1, "B": 2},
	map[string]Pad238{"A": "1", "B": "2"},
	map[string]Pad239{"A": 1, "B": 2},
	map[string]Pad240{"A": 1, "B": 2},
	map[string]Pad241{"A": 1, "B": 2},
	map[string]Pad242{"A": "1", "B": "2"},
	map[string]Pad243{"A": 1, "B": 2},
	map[string]Pad244{"A": 1, "B": 2},
	map[string]Pad245{"A": 1, "B": 2},
	map[string]Pad246{"A": "1", "B": "2"},
	map[string]Pad247{"A": 1, "B": 2},
	map[string]Pad248{"A": 1, "B": 2},
	map[string]Pad249{"A": 1, "B": 2},
	map[string]Pad250{"A": "1", "B": "2"},
	map[string]Pad251{"A": 1, "B": 2},
	map[string]Pad252{"A": 1, "B": 2},
	map[string]Pad253{"A": 1, "B": 2},
	map[string]Pad254{"A": "1", "B": "2"},
	map[string]Pad255{"A": 1, "B": 2},
	map[string]Pad256{"A": 1, "B": 2},
	map[string]Pad257{"A": 1, "B": 2},
	map[string]Pad258{"A": "1", "B": "2"},
	map[string]Pad259{"A": 1, "B": 2},
	map[string]Pad260{"A": 1, "B": 2},
	map[string]Pad261{"A": 1, "B": 2},
	map[string]Pad262{"A": "1", "B": "2"},
	map[string]Pad263{"A": 1, "B": 2},
	map[string]Pad264{"A": 1, "B": 2},
	map[string]Pad265{"A": 1, "B": 2},
	map[string]Pad266{"A": "1", "B": "2"},
	map[string]Pad267{"A": 1, "B": 2},
	map[string]Pad268{"A": 1, "B": 2},
	map[string]Pad269{"A": 1, "B": 2},
}

var padded []*Enum

// pads gives n enums that no schema uses
func pads(n int) []*Enum {
	for len(padded) < n {
		padded = append(padded, NewEnum(padEnums[len(padded)]))
	}
	return append([]*Enum{}, padded[:n]...)
}
