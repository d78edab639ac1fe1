package main

var (
	elemByFunc = map[string]*regElem{}
	attrByFunc = map[string]*regAttr{}
	propByFunc = map[string]*regProp{}
)

func init() {
	for i := range regElems {
		elemByFunc[regElems[i].Func] = &regElems[i]
	}
	for i := range regAttrs {
		attrByFunc[regAttrs[i].Func] = &regAttrs[i]
	}
	for i := range regProps {
		propByFunc[regProps[i].Func] = &regProps[i]
	}
}
