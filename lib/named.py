"""Designs with a fixed name: those of the known findings, and idioms that random designs avoid."""

C09 = {
 "whole-after-part": """module TOP(input [3:0] a, input [3:0] b, output [3:0] z);
reg [3:0] y;
always @* begin y = a; y[0] = b[1]; y = b; end
assign z = y;
endmodule
""",
 "part-after-whole": """module TOP(input [3:0] a, input [3:0] b, output [3:0] z, output [7:0] w);
reg [3:0] y;
reg [7:0] x;
always @* begin y = a; y[0] = b[1]; if (b[2]) y[3:2] = b[1:0]; else y[1] = ~a[1]; end
always @* begin x = 0; x[a[2:0]] = 1; x[b[2:0]] = b[3]; end
assign z = y;
assign w = x;
endmodule
""",
 "read-after-part": """module TOP(input [7:0] a, input [1:0] k, input d, output [7:0] y, output [7:2] z, output [3:0] u);
reg [7:0] t, s;
reg [7:2] v;
reg [0:3] w;
reg [3:0] o;
always @* begin t = 0; t[3:0] = a[7:4]; if (d) begin t[3:0] = a[3:0]; t[7] = 1; end s = t; t[6] = s[2] ^ t[7]; end
always @* begin v[7:5] = a[2:0]; v[4:2] = 0; if (k[0]) begin v[7:5] = a[5:3]; v[4:2] = v[7:5]; end else v[4:2] = v[6:4]; end
always @* begin w[0:1] = k; w[2:3] = a[1:0]; o = w; if (d) begin w[0:1] = w[2:3]; o = o + w[1:2]; end end
assign y = s; assign z = v; assign u = w ^ o;
endmodule
""",
 "index-assigned-before": """module TOP(input CLK, input [3:0] a, input [1:0] k, input d, output [3:0] y);
reg [3:0] c;
always @* begin c = 2; if (a[0]) c = 1; end
reg [3:0] m;
always @(posedge CLK) m[c] <= d;
reg [3:0] t; reg [1:0] j;
always @* begin j = k + 1; t = a; t[j] = d; j = 0; end
assign y = t ^ c;
endmodule
""",
 "function-reads-itself": """module TOP(input [3:0] a, input [3:0] k, output [3:0] y, output [3:0] z);
function [3:0] F;
 input [3:0] x;
 input [3:0] k;
 reg [3:0] t;
 begin
 F = x;
 t = F + 1;
 if (k[0]) F = F + t;
 else begin F = F ^ 3; if (k[1]) F = F | 8; t = F; end
 F = F ^ t;
 end
endfunction
assign y = F(a, k);
reg [3:0] q;
always @* begin q = F(k, a); if (a[0]) q = F(q, k); end
assign z = q;
endmodule
""",
}

C10 = {
 "memory-order": """module TOP(input CLK, input i, input d, output z);
reg m [0:1];
always @(posedge CLK) begin m[i] <= 0; m[1] <= d; m[i] <= ~d; end
assign z = m[1];
endmodule
""",
 "whole-after-part": """module TOP(input CLK, input i, input d, output z);
reg [3:0] m;
always @(posedge CLK) begin m[1] <= 0; m <= 5; m[1] <= 1; end
assign z = m[1];
endmodule
""",
 "part-after-whole": """module TOP(input CLK, input [3:0] i, input d, output [3:0] z);
reg [3:0] m;
always @(posedge CLK) begin m <= 0; m[1] <= d; if (i[0]) m[i[3:2]] <= ~d; end
assign z = m;
endmodule
""",
}

C14 = {
 "overflow": """module TOP(input [3:0] a, output [3:0] y, output [11:0] z);
assign y = (4'd15 + 4'd15) == 4'd14 ? a : 0;
assign z = a | (~a);
endmodule
""",
 "params": """module TOP #(parameter W = 4, parameter [7:0] K = 200) (input [W-1:0] a, output [W+3:0] y, output z);
localparam N = (W > 3) ? W * 2 : W + 1, M = (K >> 4) % 5;
localparam [2:0] T = K[5:3];
assign y = {a, 4'd3} + N * M + T;
assign z = a[N / 4] && (K[7] || a[0]);
endmodule
""",
}

RST = [{"n": "TOP.RST", "v": 0}]
C15 = {
 "bitwise": {"src": """module TOP (CLK, RST, d, e);
input CLK, RST; input [1:0] d, e;
reg [1:0] state;
always @(posedge CLK) if (RST) state <= 0; else if (state == 0) begin if (d & e) state <= 1; end else if (~d) state <= 0;
endmodule
""", "rst": RST, "watch": [], "want": ["TOP.state"]},
 "truncating-wire": {"src": """module TOP (CLK, RST, d);
input CLK, RST; input [1:0] d;
reg [1:0] state;
wire [1:0] n;
assign n = d + 1;
always @(posedge CLK) if (RST) state <= 0; else if (state == 0) begin if (n == 0) state <= 1; end else state <= 0;
endmodule
""", "rst": RST, "watch": [], "want": ["TOP.state"]},
 "loops": {"src": """module TOP (CLK, RST, d);
input CLK, RST; input [1:0] d;
reg [1:0] state;
always @(posedge CLK) if (RST) state <= 0; else case (state)
0: if (d[0]) state <= 1; else state <= 2;
1: state <= 2;
2: if (d[1]) state <= 0; else if (d[0]) state <= 1; else state <= 2;
default: state <= 0;
endcase
endmodule
""", "rst": RST, "watch": [], "want": ["TOP.state"]},
 "full-case-default": {"src": """module TOP (CLK, RST, a, y);
input CLK, RST, a; output reg y;
reg [1:0] state;
always @(posedge CLK) if (RST) state <= 0; else case (state)
0: if (a) state <= 1;
1: state <= 2;
2: state <= 3;
3: if (!a) state <= 0;
default: if (a) state <= 3; else state <= 0;
endcase
always @(posedge CLK) if (RST) y <= 0; else if (state == 2) y <= a; else if (state == 3) y <= 1; else y <= 0;
endmodule
""", "rst": RST, "watch": ["TOP.y"], "want": ["TOP.state"]},
 "two-process": {"src": """module TOP (CLK, RST, go, done, busy);
input CLK, RST, go, done; output busy;
parameter IDLE = 0, RUN = 1, WAIT = 2;
reg [1:0] state, next_state;
reg busy;
always @(posedge CLK or negedge RST) if (!RST) state <= IDLE; else state <= next_state;
always @(*) begin next_state = state; case (state) IDLE: if (go) next_state = RUN; RUN: if (done) next_state = WAIT; WAIT: next_state = IDLE; default: next_state = IDLE; endcase end
always @(*) if (state == RUN) busy = 1; else busy = 0;
endmodule
""", "rst": [{"n": "TOP.RST", "v": 1}], "watch": ["TOP.busy"], "want": ["TOP.state"]},
 "subset-of-states": {"src": """module TOP (CLK, RST, a, d);
input CLK, RST, a; input [3:0] d;
reg [3:0] state;
always @(posedge CLK) begin
if (state >= 10) state <= 0; else if (8 < state) state <= 10; else if (3 >= state && a) state <= 9; else if (state <= 5 || d == state) state <= 19;
if (RST) state <= 0; end
endmodule
""", "rst": RST, "watch": [], "want": ["TOP.state"]},
 "only-reset": {"src": """module TOP (CLK, RST, a, y);
input CLK, RST, a; output reg y;
reg [3:0] state, mode; reg [1:0] count;
always @(posedge CLK) if (RST) state <= 0; else state <= mode;
always @(posedge CLK) if (RST) mode <= 0; else mode <= state;
always @(posedge CLK) if (RST) count <= 0; else if (count == 1 && a) count <= 0;
always @(posedge CLK) y <= 1;
endmodule
""", "rst": RST, "watch": ["TOP.y"], "want": []},
}

C17 = {
 "concat-target": """module TOP (input [3:0] a, input [3:0] b, output [1:0] x, output [2:0] y);
assign {x, y} = a + b;
endmodule
""",
 "parameters": """module TOP (CLK, i, y);
parameter W = 2, V = W + 1;
localparam [V:0] L = 13; localparam signed [0:W] M = L;
input CLK; input [V:0] i; output reg [V+W:0] y;
wire [V+W:0] t = {L, i} ^ {M, i};
always @(posedge CLK) y <= t[W] ? t : y + L;
endmodule
""",
 "clocks": """module TOP (clocks, resets, d, q, r, s);
input [2:0] clocks; input [1:0] resets; input [3:0] d; output reg [3:0] q, r, s;
wire nclk = ~clocks[0];
always @(negedge clocks[2] or posedge resets[1]) if (resets[1]) q <= 0; else q <= d;
always @(posedge nclk or negedge resets[1]) if (!resets[1]) r <= 3; else if (d[0]) r[2:1] <= q[1:0];
always @(posedge clocks[1]) s <= q ^ r;
endmodule
""",
 "memory": """module TOP (CLK, we, a, d, q);
input CLK, we; input [1:0] a; input [7:0] d; output [7:0] q;
reg [7:0] m [0:3];
reg [1:0] ra;
always @(posedge CLK) begin if (we) m[a] <= d; ra <= a; end
assign q = m[ra];
endmodule
""",
 "instances": """module add #(parameter W = 4, parameter [W-1:0] K = 1) (input [W-1:0] a, b, output [W-1:0] s, output c);
assign s = a + b + K;
assign c = s < a;
endmodule
module TOP (input [7:0] x, y, output [7:0] s, output c, d);
wire [3:0] lo, hi; wire c0;
add #(.K(2)) u0 (.a(x[3:0]), .b(y[3:0]), .s(lo), .c(c0));
add #(4, 3) u1 (x[7:4], y[7:4], hi, c);
assign s = {hi, lo}; assign d = c0;
endmodule
""",
}
