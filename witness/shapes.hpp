#pragma once
#define A1 Shape{vf_dim("a0")}
#define A2 Shape{vf_dim("a0"), vf_dim("a1")}
#define A3 Shape{vf_dim("a0"), vf_dim("a1"), vf_dim("a2")}
#define A4 Shape{vf_dim("a0"), vf_dim("a1"), vf_dim("a2"), vf_dim("a3")}
#define B1 Shape{vf_dim("b0")}
#define B2 Shape{vf_dim("b0"), vf_dim("b1")}
#define B3 Shape{vf_dim("b0"), vf_dim("b1"), vf_dim("b2")}
#define B4 Shape{vf_dim("b0"), vf_dim("b1"), vf_dim("b2"), vf_dim("b3")}
