from properties import CHECKS
