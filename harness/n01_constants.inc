X(degrees_to_radians)
X(e)
X(e_over_eight)
X(e_over_five)
X(e_over_four)
X(e_over_seven)
X(e_over_six)
X(e_over_three)
X(e_over_two)
X(eight)
X(eight_over_e)
X(eight_over_phi)
X(eight_over_pi)
X(eight_over_three_pi)
X(five)
X(five_over_e)
X(five_over_phi)
X(five_over_pi)
X(five_over_three_pi)
X(five_over_two_pi)
X(four)
X(four_over_e)
X(four_over_five)
X(four_over_phi)
X(four_over_pi)
X(four_over_seven)
X(four_over_three)
X(four_over_three_pi)
X(negative_zero)
X(nine)
X(one)
X(one_hundred)
X(one_over_e)
X(one_over_eight)
X(one_over_five)
X(one_over_four)
X(one_over_one_hundred)
X(one_over_one_thousand)
X(one_over_phi)
X(one_over_pi)
X(one_over_seven)
X(one_over_six)
X(one_over_sqrt_e)
X(one_over_sqrt_phi)
X(one_over_sqrt_pi)
X(one_over_sqrt_three)
X(one_over_sqrt_three_pi)
X(one_over_sqrt_two)
X(one_over_sqrt_two_pi)
X(one_over_ten)
X(one_over_three)
X(one_over_three_pi)
X(one_over_two)
X(one_over_two_pi)
X(phi)
X(phi_over_eight)
X(phi_over_five)
X(phi_over_four)
X(phi_over_seven)
X(phi_over_six)
X(phi_over_three)
X(phi_over_two)
X(pi)
X(pi_over_eight)
X(pi_over_five)
X(pi_over_four)
X(pi_over_seven)
X(pi_over_six)
X(pi_over_three)
X(pi_over_two)
X(radians_to_degrees)
X(seven)
X(seven_over_e)
X(seven_over_phi)
X(seven_over_pi)
X(seven_over_three_pi)
X(seven_over_two_pi)
X(six)
X(six_over_e)
X(six_over_phi)
X(six_over_pi)
X(sqrt_e)
X(sqrt_four)
X(sqrt_phi)
X(sqrt_pi)
X(sqrt_three)
X(sqrt_three_pi)
X(sqrt_two)
X(sqrt_two_pi)
X(ten)
X(three)
X(three_over_e)
X(three_over_eight)
X(three_over_five)
X(three_over_four)
X(three_over_phi)
X(three_over_pi)
X(three_over_seven)
X(three_over_two)
X(three_over_two_pi)
X(three_pi)
X(three_pi_over_eight)
X(three_pi_over_five)
X(three_pi_over_four)
X(three_pi_over_seven)
X(three_pi_over_two)
X(two)
X(two_over_e)
X(two_over_five)
X(two_over_phi)
X(two_over_pi)
X(two_over_seven)
X(two_over_three)
X(two_over_three_pi)
X(two_pi)
X(two_pi_over_five)
X(two_pi_over_seven)
X(two_pi_over_three)
X(zero)
