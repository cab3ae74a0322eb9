X(one_over_two)
X(two_over_three)
X(two_over_five)
X(sqrt_two)
X(one_over_sqrt_two)
X(one_over_three)
X(three_over_two)
X(three_over_four)
X(three_over_five)
X(sqrt_three)
X(one_over_sqrt_three)
X(pi)
X(one_over_pi)
X(pi_over_two)
X(pi_over_three)
X(pi_over_four)
X(pi_over_five)
X(pi_over_six)
X(pi_over_seven)
X(pi_over_eight)
X(sqrt_pi)
X(one_over_sqrt_pi)
X(two_pi)
X(sqrt_two_pi)
X(one_over_sqrt_two_pi)
X(one_over_three_pi)
X(three_pi_over_two)
X(three_pi_over_four)
X(three_pi_over_five)
X(e)
X(one_over_e)
X(e_over_two)
X(e_over_three)
X(e_over_four)
X(e_over_five)
X(e_over_six)
X(sqrt_e)
X(one_over_sqrt_e)
X(phi)
X(one_over_phi)
X(phi_over_two)
X(phi_over_three)
X(phi_over_four)
X(phi_over_five)
X(phi_over_six)
X(sqrt_phi)
X(one_over_sqrt_phi)
X(degrees_to_radians)
X(radians_to_degrees)
