package main

// api lists the functions which are part of the interface between packages.
// A function which is not listed is interpreted inside its callers.
var api = map[string]bool{
	"(*internal/oapi/scan/cmds.Scanner).ExportedComponents": true,
	"(*internal/oapi/scan/cmds.Scanner).Scan":               true,
	"(*internal/oapi/scan/specs.Scanner).Merge":             true,
	"(*internal/oapi/scan/specs.Scanner).Scan":              true,
	"(*internal/oapi/scan/types.Scanner).Resolve":           true,
	"(*internal/oapi/scan/types.Scanner).Scan":              true,
	"(*internal/oapi/spec.Any).UnmarshalJSON":               true,
	"(*internal/oapi/spec.AnyOrExpressions).UnmarshalJSON":  true,
	"(*internal/oapi/spec.Callback).UnmarshalJSON":          true,
	"(*internal/oapi/spec.Header).AllowsEmptyValues":        true,
	"(*internal/oapi/spec.Header).AsOptional":               true,
	"(*internal/oapi/spec.Header).NoEmptyValues":            true,
	"(*internal/oapi/spec.Header).WithDescription":          true,
	"(*internal/oapi/spec.Parameter).AllowsEmptyValues":     true,
	"(*internal/oapi/spec.Parameter).AsOptional":            true,
	"(*internal/oapi/spec.Parameter).NoEmptyValues":         true,
	"(*internal/oapi/spec.Parameter).WithDescription":       true,
	"(*internal/oapi/spec.Parameter).WithLocation":          true,
	"(*internal/oapi/spec.Parameter).WithName":              true,
	"(*internal/oapi/spec.Parameter).WithSchema":            true,
	"(*internal/oapi/spec.Response).AddContent":             true,
	"(*internal/oapi/spec.Response).AddHeader":              true,
	"(*internal/oapi/spec.Response).AddLink":                true,
	"(*internal/oapi/spec.Response).RemoveContent":          true,
	"(*internal/oapi/spec.Response).RemoveHeader":           true,
	"(*internal/oapi/spec.Response).RemoveLink":             true,
	"(*internal/oapi/spec.Response).WithDescription":        true,
	"(*internal/oapi/spec.Schema).AddRequired":              true,
	"(*internal/oapi/spec.Schema).AddToAllOf":               true,
	"(*internal/oapi/spec.Schema).AllowDuplicates":          true,
	"(*internal/oapi/spec.Schema).AsReadOnly":               true,
	"(*internal/oapi/spec.Schema).AsUnwrappedXML":           true,
	"(*internal/oapi/spec.Schema).AsWrappedXML":             true,
	"(*internal/oapi/spec.Schema).AsWritable":               true,
	"(*internal/oapi/spec.Schema).AsXMLAttribute":           true,
	"(*internal/oapi/spec.Schema).AsXMLElement":             true,
	"(*internal/oapi/spec.Schema).UniqueValues":             true,
	"(*internal/oapi/spec.Schema).WithAllOf":                true,
	"(*internal/oapi/spec.Schema).WithDefault":              true,
	"(*internal/oapi/spec.Schema).WithDescription":          true,
	"(*internal/oapi/spec.Schema).WithEnum":                 true,
	"(*internal/oapi/spec.Schema).WithExample":              true,
	"(*internal/oapi/spec.Schema).WithExternalDocs":         true,
	"(*internal/oapi/spec.Schema).WithFormat":               true,
	"(*internal/oapi/spec.Schema).WithMaxItems":             true,
	"(*internal/oapi/spec.Schema).WithMaxLength":            true,
	"(*internal/oapi/spec.Schema).WithMaxProperties":        true,
	"(*internal/oapi/spec.Schema).WithMaximum":              true,
	"(*internal/oapi/spec.Schema).WithMinItems":             true,
	"(*internal/oapi/spec.Schema).WithMinLength":            true,
	"(*internal/oapi/spec.Schema).WithMinProperties":        true,
	"(*internal/oapi/spec.Schema).WithMinimum":              true,
	"(*internal/oapi/spec.Schema).WithMultipleOf":           true,
	"(*internal/oapi/spec.Schema).WithPattern":              true,
	"(*internal/oapi/spec.Schema).WithProperties":           true,
	"(*internal/oapi/spec.Schema).WithProperty":             true,
	"(*internal/oapi/spec.Schema).WithRequired":             true,
	"(*internal/oapi/spec.Schema).WithTitle":                true,
	"(*internal/oapi/spec.Schema).WithType":                 true,
	"(*internal/oapi/spec.Schema).WithXMLName":              true,
	"(*internal/oapi/spec.Schema).WithXMLNamespace":         true,
	"(*internal/oapi/spec.Schema).WithXMLPrefix":            true,
	"(*internal/oapi/spec.XML).AsAttribute":                 true,
	"(*internal/oapi/spec.XML).AsElement":                   true,
	"(*internal/oapi/spec.XML).AsUnwrapped":                 true,
	"(*internal/oapi/spec.XML).AsWrapped":                   true,
	"(*internal/oapi/spec.XML).WithName":                    true,
	"(*internal/oapi/spec.XML).WithNamespace":               true,
	"(*internal/oapi/spec.XML).WithPrefix":                  true,
	"(*internal/pointer.Pointer).MarshalJSON":               true,
	"(*internal/pointer.Pointer).UnmarshalJSON":             true,
	"(internal/container.Container).Bytes":                  true,
	"(internal/container.Container).ChildrenMap":            true,
	"(internal/container.Container).Clone":                  true,
	"(internal/container.Container).Data":                   true,
	"(internal/container.Container).ExistsP":                true,
	"(internal/container.Container).FilePath":               true,
	"(internal/container.Container).Flatten":                true,
	"(internal/container.Container).IsNil":                  true,
	"(internal/container.Container).MarshalIndentJSON":      true,
	"(internal/container.Container).MarshalJSON":            true,
	"(internal/container.Container).MarshalYAML":            true,
	"(internal/container.Container).Merge":                  true,
	"(internal/container.Container).Path":                   true,
	"(internal/container.Container).Print":                  true,
	"(internal/container.Container).Replace":                true,
	"(internal/container.Container).SetP":                   true,
	"(internal/container.Containers).Len":                   true,
	"(internal/container.Containers).Less":                  true,
	"(internal/container.Containers).Merge":                 true,
	"(internal/container.Containers).Sort":                  true,
	"(internal/container.Containers).Swap":                  true,
	"(internal/container.MapSlice).Len":                     true,
	"(internal/container.MapSlice).Less":                    true,
	"(internal/container.MapSlice).MarshalJSON":             true,
	"(internal/container.MapSlice).MarshalYAML":             true,
	"(internal/container.MapSlice).Sort":                    true,
	"(internal/container.MapSlice).Swap":                    true,
	"(internal/container.MapSlice).Values":                  true,
	"(internal/container.Sorter).MarshalIndentJSON":         true,
	"(internal/container.Sorter).MarshalJSON":               true,
	"(internal/container.Sorter).MarshalYAML":               true,
	"(internal/logging.loggingFn).Printf":                   true,
	"(internal/oapi.FlattenPaths).Match":                    true,
	"(internal/oapi/resolver.Entity).Fragment":              true,
	"(internal/oapi/resolver.Entity).Path":                  true,
	"(internal/oapi/resolver.Exports).Get":                  true,
	"(internal/oapi/resolver.Pointer).IsScheme":             true,
	"(internal/oapi/scan/cmds.Args).Get":                    true,
	"(internal/oapi/scan/cmds.Args).Len":                    true,
	"(internal/oapi/scan/cmds.CmdBase).GetArgs":             true,
	"(internal/oapi/scan/cmds.CmdBase).GetCmd":              true,
	"(internal/oapi/scan/cmds.List).Pointers":               true,
	"(internal/oapi/scan/cmds.Map).Pointers":                true,
	"(internal/oapi/scan/types.point).Clone":                true,
	"(internal/oapi/scan/types.point).String":               true,
	"(internal/oapi/scan/types.points).Len":                 true,
	"(internal/oapi/scan/types.points).Less":                true,
	"(internal/oapi/scan/types.points).String":              true,
	"(internal/oapi/scan/types.points).Swap":                true,
	"(internal/oapi/spec.Any).MarshalJSON":                  true,
	"(internal/oapi/spec.AnyOrExpressions).MarshalJSON":     true,
	"(internal/oapi/spec.Callback).Entity":                  true,
	"(internal/oapi/spec.Callback).MarshalJSON":             true,
	"(internal/oapi/spec.Entity).Fragment":                  true,
	"(internal/oapi/spec.Entity).Key":                       true,
	"(internal/oapi/spec.Entity).Path":                      true,
	"(internal/oapi/spec.Example).Entity":                   true,
	"(internal/oapi/spec.Header).Entity":                    true,
	"(internal/oapi/spec.Link).Entity":                      true,
	"(internal/oapi/spec.Parameter).Entity":                 true,
	"(internal/oapi/spec.PathItem).Entity":                  true,
	"(internal/oapi/spec.PathItem).Operations":              true,
	"(internal/oapi/spec.Refable).Entity":                   true,
	"(internal/oapi/spec.RequestBody).Entity":               true,
	"(internal/oapi/spec.Response).Entity":                  true,
	"(internal/oapi/spec.Schema).Entity":                    true,
	"(internal/oapi/spec.SecurityScheme).Entity":            true,
	"(internal/pointer.Fragment).Clone":                     true,
	"(internal/pointer.Fragment).Descendant":                true,
	"(internal/pointer.Fragment).Head":                      true,
	"(internal/pointer.Fragment).IsEmpty":                   true,
	"(internal/pointer.Fragment).Last":                      true,
	"(internal/pointer.Fragment).Len":                       true,
	"(internal/pointer.Fragment).RawDescendant":             true,
	"(internal/pointer.Fragment).Replace":                   true,
	"(internal/pointer.Fragment).String":                    true,
	"(internal/pointer.Fragment).Tail":                      true,
	"(internal/pointer.Pointer).Clone":                      true,
	"(internal/pointer.Pointer).IsExternal":                 true,
	"(internal/pointer.Pointer).PkgPath":                    true,
	"(internal/pointer.Pointer).String":                     true,
	"(internal/pointer.Pointers).Merge":                     true,
	"internal/container.ExtractKey":                         true,
	"internal/container.Make":                               true,
	"internal/container.MergeDefault":                       true,
	"internal/container.MergeOverride":                      true,
	"internal/container.MergeStrict":                        true,
	"internal/container.New":                                true,
	"internal/container.NewSortMarshaller":                  true,
	"internal/container.ReadDir":                            true,
	"internal/container.ReadFile":                           true,
	"internal/container.ReadJSON":                           true,
	"internal/container.ReadYAML":                           true,
	"internal/container.SliceToDotPath":                     true,
	"internal/container.SortMapMarhsaler":                   true,
	"internal/container.Zero":                               true,
	"internal/logging.Debug":                                true,
	"internal/logging.Fatal":                                true,
	"internal/logging.Info":                                 true,
	"internal/logging.Log":                                  true,
	"internal/logging.NewLogger":                            true,
	"internal/logging.ParseLevel":                           true,
	"internal/logging.Void":                                 true,
	"internal/logging.Warn":                                 true,
	"internal/oapi.MergeWithRoot":                           true,
	"internal/oapi.Paths":                                   true,
	"internal/oapi.SetPathsDefaults":                        true,
	"internal/oapi/config.ReadFile":                         true,
	"internal/oapi/config.ReadJSON":                         true,
	"internal/oapi/config.ReadYAML":                         true,
	"internal/oapi/resolver.ReplacePtr":                     true,
	"internal/oapi/resolver.ReplacePtrWithEmptyObject":      true,
	"internal/oapi/resolver.Resolve":                        true,
	"internal/oapi/resolver.SetEntity":                      true,
	"internal/oapi/resolver.UpdatePtr":                      true,
	"internal/oapi/resolver.UpdatePtrToLocal":               true,
	"internal/oapi/scan/cmds.NewCmdRoot":                    true,
	"internal/oapi/scan/cmds.NewCmdSchema":                  true,
	"internal/oapi/scan/cmds.NewScanner":                    true,
	"internal/oapi/scan/cmds.Parse":                         true,
	"internal/oapi/scan/cmds.ParseCommentGroup":             true,
	"internal/oapi/scan/specs.NewScanner":                   true,
	"internal/oapi/scan/types.AddRefOverride":               true,
	"internal/oapi/scan/types.NewScanner":                   true,
	"internal/oapi/spec.APIKeyAuth":                         true,
	"internal/oapi/spec.AllSchema":                          true,
	"internal/oapi/spec.AnySchema":                          true,
	"internal/oapi/spec.ArrayProperty":                      true,
	"internal/oapi/spec.BasicAuth":                          true,
	"internal/oapi/spec.BearerAuth":                         true,
	"internal/oapi/spec.BinaryProperty":                     true,
	"internal/oapi/spec.BooleanProperty":                    true,
	"internal/oapi/spec.ByteProperty":                       true,
	"internal/oapi/spec.CookieParam":                        true,
	"internal/oapi/spec.DateProperty":                       true,
	"internal/oapi/spec.DateTimeProperty":                   true,
	"internal/oapi/spec.Float32Property":                    true,
	"internal/oapi/spec.Float64Property":                    true,
	"internal/oapi/spec.FloatFmtProperty":                   true,
	"internal/oapi/spec.FormDataRequestBody":                true,
	"internal/oapi/spec.FormDataResponse":                   true,
	"internal/oapi/spec.HeaderParam":                        true,
	"internal/oapi/spec.Int16Property":                      true,
	"internal/oapi/spec.Int32Property":                      true,
	"internal/oapi/spec.Int64Property":                      true,
	"internal/oapi/spec.Int8Property":                       true,
	"internal/oapi/spec.IntFmtProperty":                     true,
	"internal/oapi/spec.JSONRequestBody":                    true,
	"internal/oapi/spec.JSONResponse":                       true,
	"internal/oapi/spec.MapProperty":                        true,
	"internal/oapi/spec.NewAny":                             true,
	"internal/oapi/spec.NewComponents":                      true,
	"internal/oapi/spec.NewRequestBody":                     true,
	"internal/oapi/spec.NewResponse":                        true,
	"internal/oapi/spec.NewServers":                         true,
	"internal/oapi/spec.NotSchema":                          true,
	"internal/oapi/spec.OAuth2AuthorizationCode":            true,
	"internal/oapi/spec.OAuth2ClientCredentials":            true,
	"internal/oapi/spec.OAuth2Implicit":                     true,
	"internal/oapi/spec.OAuth2Password":                     true,
	"internal/oapi/spec.OctetStreamRequestBody":             true,
	"internal/oapi/spec.OctetStreamResponse":                true,
	"internal/oapi/spec.OneSchema":                          true,
	"internal/oapi/spec.PasswordProperty":                   true,
	"internal/oapi/spec.PathParam":                          true,
	"internal/oapi/spec.QueryParam":                         true,
	"internal/oapi/spec.StrFmtProperty":                     true,
	"internal/oapi/spec.StringProperty":                     true,
	"internal/oapi/spec.TextPlainRequestBody":               true,
	"internal/oapi/spec.TextPlainResponse":                  true,
	"internal/oapi/spec.URLEncodedRequestBody":              true,
	"internal/oapi/spec.URLEncodedResponse":                 true,
	"internal/oapi/spec.XMLRequestBody":                     true,
	"internal/oapi/spec.XMLResponse":                        true,
	"internal/pkgutil.GetPkgPath":                           true,
	"internal/pkgutil.IsStdLibPkg":                          true,
	"internal/pkgutil.Scan":                                 true,
	"internal/pointer.MustParse":                            true,
	"internal/pointer.NewFragment":                          true,
	"internal/pointer.NewGoPointer":                         true,
	"internal/pointer.NewPointer":                           true,
	"internal/pointer.NewPointers":                          true,
	"internal/pointer.Parse":                                true,
	"internal/route.Match":                                  true,
	"oapi.Format":                                           true,
	"oapi.Scan":                                             true,
	"oapi.WithDefOps":                                       true,
	"oapi.WithDir":                                          true,
	"oapi.WithLog":                                          true,
	"oapi.WithOverride":                                     true,
	"oapi.WithRootSchema":                                   true,
	"tag.Parse":                                             true,
}
