//go:build go1.23

package main

// rsaFixtures are RSA keys of 1024 bits, used by the simulation only
var rsaFixtures = []string{
	"MIICXQIBAAKBgQDyW7lFhJwF1rI3zjgOZ5IFffEJOTKRVuuCP6qaIj3ZeAB4yOfcqZ7YiZVM27YA0LV33bYJuF7EYMW2c/qysfFA8nmN3GVxJjyLqMGzgEvjun2pybtxnBACnJOQ8PJRyiEeO/VcohGOHGkmgvsnQaTTCCFBbH93Nw8IGK34vXMb2QIDAQABAoGAHljqnSWFcpxiBTzhpg7FU8IObEI+Q8FnjLqzfnNqh+WlNs/+wJHOHdKJ4G2On7wtTPd1M5244sw0qwELflQWdPYbIZ0z2uEkl1qHHTmpugv6Hm41WPEXkV97KlxAhE0JRPOertnI4dsxMW+5ukAgTbDVZFoTX+Xzwm+93dhzLJUCQQD24ohcscfbQVrcCcP1Rw+/ln9o1hgmKyryyY3Jk3QqbY+lfvF93DAbvzkQtp4Ey1wMdAq3+rP1ymmapBTLUSVvAkEA+05oQ3WPHriVVBI7vVasTwrR0J0V9fITWVRpGQjvsITLoVciuOeRDoinUlQyaj4Iu/ZsbgvZn0082xhzZK5/NwJAIUdT3jrQl8ttde+TDILxqn+c2QLS6oIzHdrxU9SeegGetU4xOyftDDBwfsI+9qJ62+rgbwBKNb19Eq0/aFCd3QJBAOwaKhLW6/Os737g8odcWt6YB6+7Jdq/6DXQ/DytDKQG31lhiBm4VawV7z2GJSdzyLjvN8fcEkV8R2SAgEljN9kCQQCVoMRFqVOWNNC3EwqpAlWpmAWgx91uvDk7/hUQ0QlqJMFz/J+fqRG4nWIbKfoqqe8R7BtCNk8wsZScI0Ts6Rxx",
	"MIICWwIBAAKBgQDcQLpyprnz3PcIw4VjcbSjH/A4vA26UQDQSzxWIllSa+eEvWO1DCqRdgNIg6oDNp80YDDpW3dyh0Hz2z8YC0ZpuWufFuP0MD7DNBU5EoJikka57yAt/Ji8YAydOqER6t6lbMGBDdjhDbE3wHEGJSmSWdsP1QWsTSZFXx5H6cSxsQIDAQABAoGABJkmPR75FDS4i5UuvGT6NSBMdgnf7NQWUyZ7ZnAQsxqzYZDziYBQok6TwoawuUuPv8VKVXTfLNy2e45kdGBGG1nrq3XfmxDfgEj71c890ZfUw/w2Me580tK914pNH+aYKKEMDicOOdbfyWoBC0AeDs88NgzYQ/OO9SYje11vYGkCQQDy7mWP5ry7FUPoz1Fyj09Qwn765ScWuqBd1H+GhxPoZvRcxJt8EDGoJNP6dmfbuAdcptDHjyhejJ/p99OIc4aXAkEA6BoCUCe9//hs80Uh91WV1kJyEiItet584p6jT4XkiGxHL3WqkcEzKV7uj4IjVEzdCAgOn61/7o4Jyi9yAUGa9wJANl/v8aa2xbU7zwdgdqDnIu911pimCCtbq8TdinH/nbw1o/IJz1ock0MzA1OvaXmmhDF+d7xuT8NwI8Fp4pfhHwJAFEvp9d5z1AWCaYebH8jhMHphBUrt1TfNjfe3akXYJUHqu7C7eMF/WtfNXslPk5ihH4ms1bPTYyYSnxalDo0RIwJAHUWcFm8x2LDASHnWBvHlzMNrqlPXcXh4ID4Z3/vptlmsmIV5fz260KyHR1IqYyYaVPxT3MncQLivLEM1WtRu4g==",
	"MIICXAIBAAKBgQC0CfRFxCcCy1hYvhb6Y9Soxm0nvtxSVgFDIbZAhl2HX1EmPuDyljUFnfbB2+gzZlnlpcdkkOEty0tWz8mQKcxCL/WJQQMjjZpKUFshEw1pmKmrd/1skBGgXUnHqLUmqBsUTMNYco/yemfvdQMoJPCAypd++oIbaXjreLHEulGpUQIDAQABAoGAUSXHbwapWq4SpPUQ4EzM1kGRg3+YSJgxO3PfdJfbYh/JMMbYlx6yyVRYmyomL7yrOkINbDuM8xoVXAyN2iesw0pC2MlBBBeGLBHuwza4pkVvaVm8F7M4U5WWJgV+U1VmtsvMFDdW/ClgLDrSDaeyZXv3W/hlvNqKh1DqxBe0D20CQQDGnqilm+QfGci1DY5opk1vJM98veeaLqGvC2hOHLXHxeANYSZEsbMS2tp7HEfGTu57dQNFK+Jab2xPpW2JqLLPAkEA6A0bjkZ30eeQMQS2WaHRJx8A8V1NagSG+sVvS3GDMOVyn+vAL1kvuUGMTi5jawhPuJ/y5qSiobkduAt9vklp3wJAcJIL05D/QgFDGBqO1BEtYgji8DhRw7kaOjOk8mCjRo6H5g1hux1b+RvBKHVm2KZz09UF/XZZ3Be6s4l3A8ZxUQJBAOdq2wZChJATDRu1hV1SIVGQe9I5qFCIf0xrxZhJdfo3eN6/r4QIv61TD2eQn5lISqjm6sjVe1MpV9gJrbctY6UCQEQ/qYPPCV1tXAgkf0i8+fASn163rXTvzGFwfRZ7RG6tkZoWCcFZ9qapgFrFJ1V/USfjFxisW6OURhm7OXsxSqI=",
	"MIICWwIBAAKBgQDYSalEEZUq/Q1/arZ4F2e5tg/J3h5obTHd448UMmlIWCA4Ij4pCQJRG91w+4RBH+fzq6DzKzCeszxX0AVKJYy2UlecMiUAhImhZ4Nd5GFdMJ/M5OMRdg4izcLj7sNaAv1pJUeXhBFA6UMeZHQzFB5HaPgfY8fR1h7D9wzXApqVgQIDAQABAoGAIHgqc4AKOzpjANpVy0CEP1JwG1d/jCC8aDmlvJv2xzgHmjW1zDZAhUmgHDp998Lg8Ok2j9rPgTuaFvqxGJj7fwrANCjW2+lNCoGeGewLmxq0zXtt0CJHP4jiyZslaPo1QHVM2sv2NkeH5j8s9M10KlV50aCvdcKyjbHyE3+Ri9sCQQDxVhZhkA1jjhtxVKwsnC7FPKgt5HrhMSLhpZpEvjjn41ipyKRYVvb9jW8vMA6HVylBsCvG08Z4hQTMZuhBY6aHAkEA5W3zinuczXV1hpeEAm8+4dVyA8/ACteQ+0nwTKVieoZohT7OuKPXDFJHqJvK36CFtdQyrEo5jCSAnS6hoITdtwJAPUpjvLtc6x+4EHw0jc/MgQL6o00XeAGGnk/0cejtgtbWOahfNKBBcfttdUp7JhwYujoHpCM8kHcX1OF9sr2gGQJAW0kwSb19WlKN/It0vvM8debTgqi6pJW43gNBVX3IfS/Vjo66+cRW4FQspu21/tyD1yEjOGIgG566fc/8Bz5WaQJALH2jy7+1CxgxCIHyVvO5ANYQWoNj55WHZpxCRtOYzqdlRH8MOsucrtpqC9O9L64DG45ebvzTn6Phc5p5J6279w==",
	"MIICXAIBAAKBgQC7T8U3rv5QCN7Ujy77eDBblIVg28/ikfASul777QpL+TnUAypwU4YRRiDkUGnuWfg9B+g48fX4UOnLbtapf9M5SFTZA2Rzc9qqMln0c/1AZ+/IZO8Oom9SfQanqUeBr7nq2jMvBU/mlhUDDmOssYbfZJz6BLiTpKZUSJpMPbJhkQIDAQABAoGAFO0zaZEFkjfTe/2ShaoRWQHtqXsVWB5EKzYi1il5kjBXZhjZHRsvv26izm8veTTDAj/dEWjy49mtAmXb2gGmaC8WDa95xHBYNyOHmdYYdz2vI/V3VPCZzE0QzQ+4T4Zjh849MOopccOiIK5356cdp/M1zkUgmF2epnLFdRDM7iMCQQDnml9rwhvVyHEFmB6RtD7k/W7unznwXhhMibuAuwHFzLl2kiprEqgwbcpzF0vJKnupmW87BRFFCZRLKRvYYskfAkEAzwr+QwviQ1KgoV14bKB5T2WCgY3iKLcBn19bJo9zjYnLnIbsdw2PtXNS2vhwBeOHVZSUOYPEKwaovGUjVWKPTwJAKkFTCYEHvRBt9nxTj3fYRcUrWSP52S4Btu0mJY14/FKmv8hZLuHfh75wQmFMtW4n08Cnt5fsF7FwuenNJ8SWNwJAVNSIQShJWJQuRG9ru/Y0Phe1VSexFkWFYKtNSYtVKRTgXA3cLRtdWlcaB6XrID6NYL8zzCz03zwnPqmhxIZReQJBAML1Ru2wwF1RCKcOxDMP8509RWu0Pgigxh/G+nJwlq5eup6s8cSuSygWIFRB0ICxb9SCA+lQnjI1OC0Wcw9gxTs=",
}
